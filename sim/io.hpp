// Simulated storage and streams.  A SimDisk file is durable text plus a write-back
// cache; SimOut/SimIn are stream buffers over it with injected faults.
#ifndef SIM_IO_HPP
#define SIM_IO_HPP
#include "core.hpp"
#include <streambuf>
#include <istream>
#include <ostream>
#include <locale>
#include <map>
namespace sim {
struct IoError { int code; };   // thrown by a stream buffer whose device fails hard (deliberately not std::exception)

enum OutFault { OUT_NONE, OUT_FULL, OUT_THROW, OUT_TRANSIENT };
// Output stream buffer: accepts characters into `data`; after `limit` characters the device
// fails in the chosen way.  `chunk` is the put-area size (0 = unbuffered).
template<class C> struct SimOut : std::basic_streambuf<C> {
    typedef std::basic_streambuf<C> B; typedef typename B::int_type int_type; typedef typename B::traits_type T;
    std::basic_string<C> data; std::size_t limit; OutFault fault; bool fired; std::size_t chunk; bool failing;
    std::size_t durable;     // characters known to be on stable storage (after sync)
    C buf[64];
    SimOut() : limit(~std::size_t(0)), fault(OUT_NONE), fired(false), chunk(0), failing(false), durable(0) {}
    void set_chunk(std::size_t c) { chunk = c > 64 ? 64 : c; if (chunk) this->setp(buf, buf + chunk); }
    // push n characters into the device, returns number accepted
    std::size_t push(const C* s, std::size_t n) {
        ++R->sim_steps;
        if (failing) return 0;
        std::size_t room = limit > data.size() ? limit - data.size() : 0;
        if (fault == OUT_NONE || n <= room) { data.append(s, n); return n; }
        data.append(s, room);
        if (fault == OUT_TRANSIENT) { if (!fired) { fired = true; fault = OUT_NONE; SIM_FAULT("write-short-transient"); return room; } return n; }
        if (!fired) { if (fault == OUT_FULL) SIM_FAULT("device-full"); else SIM_FAULT("write-error-exception"); }
        fired = true; failing = true;
        if (fault == OUT_THROW) throw IoError{5};
        return room;
    }
    bool flush_buf() {
        if (!chunk) return true;
        std::size_t n = this->pptr() - this->pbase();
        if (!n) return true;
        this->setp(buf, buf + chunk);
        return push(buf, n) == n;
    }
    int_type overflow(int_type c) {
        if (!flush_buf()) return T::eof();
        if (T::eq_int_type(c, T::eof())) return T::not_eof(c);
        C ch = T::to_char_type(c);
        if (chunk) { *this->pptr() = ch; this->pbump(1); return c; }
        return push(&ch, 1) == 1 ? c : T::eof();
    }
    std::streamsize xsputn(const C* s, std::streamsize n) {
        if (chunk) return B::xsputn(s, n);
        return (std::streamsize)push(s, (std::size_t)n);
    }
    int sync() { bool ok = flush_buf(); if (ok && !failing) durable = data.size(); return ok && !failing ? 0 : -1; }
};

enum InFault { IN_NONE, IN_THROW, IN_THROW_ONCE };
// Input stream buffer: delivers `data` in pieces of at most `chunk` characters; at
// position `at` the device fails (or the data simply ends).
template<class C> struct SimIn : std::basic_streambuf<C> {
    typedef std::basic_streambuf<C> B; typedef typename B::int_type int_type; typedef typename B::traits_type T;
    std::basic_string<C> data; std::size_t pos, at, chunk; InFault fault; bool fired; u64 calls;
    C buf[64];
    explicit SimIn(const std::basic_string<C>& d) : data(d), pos(0), at(~std::size_t(0)), chunk(64), fault(IN_NONE), fired(false), calls(0) {}
    int_type underflow() {
        ++R->sim_steps; ++calls;
        if (calls > 4 * data.size() + 100000) throw BudgetExceeded();
        if (this->gptr() && this->gptr() < this->egptr()) return T::to_int_type(*this->gptr());
        if (fault != IN_NONE && pos >= at && !(fault == IN_THROW_ONCE && fired)) {
            if (!fired) SIM_FAULT("read-error-exception");
            fired = true; throw IoError{5};
        }
        std::size_t n = chunk < 1 ? 1 : chunk > 64 ? 64 : chunk;
        if (pos + n > data.size()) n = data.size() - pos;
        if (fault != IN_NONE && !fired && pos < at && pos + n > at) n = at - pos;
        if (n == 0) return T::eof();
        for (std::size_t i = 0; i < n; ++i) buf[i] = data[pos + i];
        pos += n;
        this->setg(buf, buf, buf + n);
        return T::to_int_type(buf[0]);
    }
    std::size_t consumed() const { return pos - (this->egptr() - this->gptr()); }
};

template<class C> inline std::basic_string<C> widen_s(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }
template<class C> inline std::string narrow_s(const std::basic_string<C>& s) { std::string o; for (C c : s) o += (char)c; return o; }

// Stream configuration decided by the run: exceptions, buffering, flags, locale.
struct Grouping : std::numpunct<char> { std::string do_grouping() const { return "\3"; } char do_thousands_sep() const { return ','; } };
struct WGrouping : std::numpunct<wchar_t> { std::string do_grouping() const { return "\3"; } wchar_t do_thousands_sep() const { return L','; } };
struct StreamCfg {
    bool wide, throwing, hex, showbase, upper, grouping, stdlib; int width; u64 chunk; int precision;
    StreamCfg() : wide(false), throwing(false), hex(false), showbase(false), upper(false), grouping(false), stdlib(false), width(0), chunk(0), precision(0) {}
    static StreamCfg random(Run& r, bool formats = true) {
        StreamCfg c;
        c.throwing = r.chance(0.35); c.wide = r.chance(0.25);
        c.chunk = r.pick(3) == 0 ? 0 : 1 + r.pick(64);
        if (formats) { c.hex = r.chance(0.08); c.showbase = r.chance(0.1); c.upper = r.chance(0.1); c.width = r.chance(0.08) ? (int)r.range(1, 24) : 0; c.grouping = r.chance(0.04); }
        c.precision = r.chance(0.1) ? (int)r.pick(20) : 6;
        return c;
    }
    template<class S> void apply(S& s, bool out) const {
        if (grouping) { static const std::locale l(std::locale(std::locale::classic(), new Grouping), new WGrouping); s.imbue(l); }
        if (hex) s.setf(std::ios_base::hex, std::ios_base::basefield);
        if (showbase) s.setf(std::ios_base::showbase);
        if (upper) s.setf(std::ios_base::uppercase);
        if (out && width) s.width(width);
        if (out) s.precision(precision);
        if (throwing) s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    }
    std::string describe() const { return cat(wide ? "wide " : "", throwing ? "throwing " : "", hex ? "hex " : "", showbase ? "showbase " : "", grouping ? "grouping " : "", width ? "width " : "", "chunk=", chunk); }
};
}
#endif
