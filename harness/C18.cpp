// C18: a writer created without a binary header takes sample count and interval
// from the first trace; what it can not represent is refused; the file reads back.
#include "segy.hpp"
#include <memory>
static const int DF[] = { 1, 5, 5 };
template <int R> static std::unique_ptr<OSEGY> open(int ext)
{
    std::vector<std::string> t;
    if (ext) t = std::vector<std::string>(ext + 1, std::string(3200, 'x'));
    if (R == 0) return std::make_unique<OSEGYRev0>("o.sgy");
    if (R == 1) return std::make_unique<OSEGYRev1>("o.sgy", t);
    return std::make_unique<OSEGYRev2>("o.sgy", t, CommonSEGY::BinaryHeader {}, std::vector<std::string>(ext > 1, std::string(3200, 'T')));
}
static const TMap* M;
// first trace with ns samples, then a second one; interval symbolic
template <int R> static void ok()
{
    int ext = R ? (int)vf::choose("ext", 0, 2) : 0;
    int64_t ns = vf::choose("ns", 0, 3), ns1 = R ? vf::choose("ns1", 0, 2) : ns;
    bool dbl = vf::choose("dbl", 0, 1);
    int16_t dt = vf::sym<int16_t>("dt");
    vf::assume(dt > 0);
    int32_t ff = vf::sym<int32_t>("ff"), fg = vf::sym<int32_t>("fg");
    {
        auto o = open<R>(ext);
        UMap h;
        h["SAMP_NUM"] = ns; h["SAMP_INT"] = dbl ? Value((double)dt) : Value((int64_t)dt); h["FFID"] = (int64_t)ff;
        Trace t(h, std::vector<double>(ns, 0.5));
        o->write_trace(t);
        h["SAMP_NUM"] = ns1; h["FFID"] = (int64_t)fg;
        h["SAMP_INT"] = (int64_t)1; // only the first trace counts
        Trace t2(h, std::vector<double>(ns1, -2.0));
        o->write_trace(t2);
    }
    int tr = R == 2 && ext > 1;
    vf::check(vf_file_size("o.sgy") == (size_t)(3600 + 3200 * (ext + tr) + 480 + 4 * (ns + ns1)), "size of the file");
    const unsigned char* d = vf_file_data("o.sgy");
    vf::check_eq(vf::get(d + 3216, 2, true), (uint16_t)dt, "sample interval of the first trace in the binary header");
    vf::check_eq(vf::get(d + 3220, 2, true), (uint16_t)ns, "sample count of the first trace in the binary header");
    vf::check(vf::get(d + 3224, 2, true) == (unsigned)DF[R], "format of the writer's revision");
    vf::check(d[3500] == R && vf::get(d + 3504, 2, true) == (unsigned)ext, "revision and extended text headers");
    if (R == 2) vf::check(vf::get(d + 3528, 4, true) == (unsigned)tr, "trailer stanzas");
    ISEGY s("o.sgy");
    vf::check(s.text_headers().size() == (size_t)ext + 1, "text headers");
    Trace a = s.read_trace();
    vf::check_eq(std::get<int64_t>(*a.header().get("FFID")), (int64_t)ff, "first trace");
    vf::check(a.samples().size() == (size_t)ns, "samples of the first trace");
    for (double x : a.samples()) vf::check(x == 0.5, "samples of the first trace");
    vf::check(s.has_trace(), "second trace");
    Trace c = s.read_trace();
    vf::check_eq(std::get<int64_t>(*c.header().get("FFID")), (int64_t)fg, "second trace");
    vf::check(c.samples().size() == (size_t)ns1, "samples of the second trace");
    for (double x : c.samples()) vf::check(x == -2.0, "samples of the second trace");
    vf::check(!s.has_trace(), "two traces");
    vf::reach("end");
}
// refused: missing count or interval, interval of 0 or beyond 16 bits, count beyond 16 bits, count that differs from the samples
template <int R> static void bad()
{
    auto o = open<R>(0);
    bool hn = vf::choose("hn", 0, 1), hi = vf::choose("hi", 0, 1), dbl = vf::choose("dbl", 0, 1);
    int64_t n = vf::sym<int64_t>("n");
    int32_t dt = vf::sym<int32_t>("dt");
    vf::assume(n == 0 || n == 1 || n == 2 || n > 32767);
    int64_t len = vf::choose("len", 0, 1);
    UMap h;
    if (hn) h["SAMP_NUM"] = n;
    if (hi) h["SAMP_INT"] = dbl ? Value((double)dt) : Value((int64_t)dt);
    Trace t(h, std::vector<double>(len, 1.0));
    bool thrown = false;
    try { o->write_trace(t); } catch (std::exception const&) { thrown = true; }
    bool good = hn && hi && n == len && dt > 0 && dt <= 32767;
    vf::assume(dt >= 0);
    vf::check(thrown == !good, "first trace is refused exactly when the binary header can not be made of it");
    vf::reach("end");
}
// an interval below one
template <int R> static void tiny()
{
    auto o = open<R>(0);
    int32_t q = vf::sym<int32_t>("q");
    vf::assume(q >= 0 && q < 8);
    UMap h;
    h["SAMP_NUM"] = (int64_t)1; h["SAMP_INT"] = (double)(q & 7) / 8;
    Trace t(h, std::vector<double>(1, 1.0));
    bool thrown = false;
    try { o->write_trace(t); } catch (std::exception const&) { thrown = true; }
    vf::check(thrown, "an interval below one is refused");
    vf::reach("end");
}
extern "C" void h_tiny0() { tiny<0>(); }
extern "C" void h_tiny1() { tiny<1>(); }
extern "C" void h_tiny2() { tiny<2>(); }
extern "C" void h_ok0() { ok<0>(); }
extern "C" void h_ok1() { ok<1>(); }
extern "C" void h_ok2() { ok<2>(); }
extern "C" void h_bad0() { bad<0>(); }
extern "C" void h_bad1() { bad<1>(); }
extern "C" void h_bad2() { bad<2>(); }
// no trace at all: headers only
template <int R> static void none()
{
    { auto o = open<R>(0); }
    vf::check(vf_file_size("o.sgy") == 3600, "headers only");
    ISEGY s("o.sgy");
    vf::check(!s.has_trace(), "no traces");
    vf::reach("end");
}
extern "C" void h_none0() { none<0>(); }
extern "C" void h_none1() { none<1>(); }
extern "C" void h_none2() { none<2>(); }
// the greatest number of samples, and one more
template <int R> static void most()
{
    bool over = vf::choose("over", 0, 1);
    int64_t ns = over ? 32768 : 32767;
    int16_t dt = vf::sym<int16_t>("dt");
    vf::assume(dt > 0);
    bool thrown = false;
    {
        auto o = open<R>(0);
        UMap h;
        h["SAMP_NUM"] = ns; h["SAMP_INT"] = (int64_t)dt;
        Trace t(h, std::vector<double>(ns, 0.5));
        try { o->write_trace(t); } catch (const std::exception&) { thrown = true; }
    }
    vf::check(thrown == over, over ? "more samples than the field holds are refused" : "the greatest number of samples is written");
    vf::check(vf_file_size("o.sgy") == (size_t)(over ? 3600 : 3600 + 240 + 4 * ns), "size of the file");
    const unsigned char* d = vf_file_data("o.sgy");
    if (!over) {
        vf::check_eq(vf::get(d + 3220, 2, true), (uint16_t)ns, "sample count of the first trace in the binary header");
        vf::check_eq(vf::get(d + 3216, 2, true), (uint16_t)dt, "sample interval of the first trace in the binary header");
    }
    vf::reach("end");
}
extern "C" void h_most0() { most<0>(); }
extern "C" void h_most1() { most<1>(); }
extern "C" void h_most2() { most<2>(); }
