
PYDEMO = r'''
#include "pybind11/pybind11.h"
namespace py = pybind11;
extern "C" void sedmc_python_module(py::module_&);
struct Mod { py::module_ m; Mod() { sedmc_python_module(m); } };
template <class T> py::Instance wrap(T& o) { return std::make_shared<py::InstanceRec>(py::InstanceRec { typeid(T), &o, std::shared_ptr<void>(&o, [](void*) {}) }); }
'''
bug('c24-text-tail', 'C24', [('src/pybind/pybind.cpp', 'strncpy(h.survey_area_name, s.c_str(), 31);', 's.copy(h.survey_area_name, 31);')],
PYDEMO + r'''
int main()
{
    Mod m;
    CommonSEGD::GeneralHeaderSur h {};
    auto i = wrap(h);
    py::setattr(i, "survey_area_name", std::any(std::string("NORTH SEA BLOCK 15")));
    CHECK(std::string(h.survey_area_name) == "NORTH SEA BLOCK 15");
    py::setattr(i, "survey_area_name", std::any(std::string("GULF")));
    CHECK(std::string(h.survey_area_name) == "GULF");
}
''', 'a shorter text set over a longer one', 'the tail of the earlier text stays in the field', python=True)

bug('c24-sorted-next', 'C24', [('src/pybind/pybind.cpp', 'return s.has_trace() ? s.read_trace() : throw py::stop_iteration(); });\n  ISEGYSorted1D_py.def("__iter__"',
 'return s.has_trace() ? s.ISEGY::read_trace()\n                         : throw py::stop_iteration();\n  });\n  ISEGYSorted1D_py.def("__iter__"')],
PYDEMO + r'''
int main()
{
    Mod m;
    CommonSEGY::BinaryHeader b = {};
    b.format_code = 5; b.samp_per_tr = 2; b.samp_int = 1000; b.SEGY_rev_major_ver = 1;
    {
        OSEGYRev1 o("a", {}, b);
        for (int64_t f : { 3, 1, 2 }) { Hdr h; h["SAMP_NUM"] = int64_t(2); h["FFID"] = f; Trace t(h, { 1.0 * f, 2 }); o.write_trace(t); }
    }
    auto r = py::construct("ISEGYSorted1D", { std::any(std::string("a")), std::any(std::string("FFID")) });
    int64_t last = 0; int n = 0;
    try {
        for (; n < 100; ++n) {
            auto t = py::call(r, "__next__");
            auto x = *std::any_cast<Trace>(&t);
            int64_t f = std::get<0>(*x.header().get("FFID"));
            CHECK(f >= last); last = f;
        }
    } catch (py::stop_iteration&) {}
    CHECK(n == 3);
}
''', 'iteration in Python over a sorted reader, file not already in order', 'the traces come in another order', python=True)

bug('c24-field-alias', 'C24', [('src/pybind/pybind.cpp', '"calib_applied", &CommonSEGD::GeneralHeaderSCa::calib_applied);', '"calib_applied", &CommonSEGD::GeneralHeaderSCa::gen_hdr_block_type);')],
PYDEMO + r'''
int main()
{
    Mod m;
    CommonSEGD::GeneralHeaderSCa h {};
    auto i = wrap(h);
    py::setattr(i, "calib_applied", std::any(int64_t(2)));
    CHECK(h.calib_applied == 2);
}
''', 'the calib_applied attribute of a sensor calibration block is used', 'the attribute shows and changes the type of the block', python=True)
