// In-memory model of the standard streams for the symbolic builds (the native
// builds use the real ones).  Files live in a map from path to bytes.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <iosfwd>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
namespace vpio {
typedef std::shared_ptr<std::vector<char> > Bytes;
inline std::vector<std::pair<std::string, Bytes> > &files() { static std::vector<std::pair<std::string, Bytes> > *m = new std::vector<std::pair<std::string, Bytes> >(); return *m; }
inline Bytes find(const std::string &p) { for (auto &f : files()) if (f.first == p) return f.second; return Bytes(); }
inline Bytes make(const std::string &p) { files().push_back(std::make_pair(p, std::make_shared<std::vector<char> >())); return files().back().second; }
}
namespace std {
class ios_base {
public:
    typedef int openmode; typedef int iostate; typedef int seekdir; typedef int fmtflags;
    enum { app = 1, ate = 2, binary = 4, in = 8, out = 16, trunc = 32 };
    enum { goodbit = 0, badbit = 1, eofbit = 2, failbit = 4 };
    enum { beg = 0, cur = 1, end = 2 };
    enum { fixed = 1, scientific = 2, dec = 4, hex = 8, left = 16, right = 32, boolalpha = 64 };
};
template <class C, class T> class basic_ios : public ios_base {
protected:
    // contents of the stream: bytes plus the reading and the writing position
    std::shared_ptr<std::vector<char> > b_; size_t r_, w_; bool append_;
    iostate st_; C fill_; long width_, prec_; fmtflags fl_;
    basic_ios() : r_(0), w_(0), append_(false), st_(0), fill_(' '), width_(0), prec_(6), fl_(0) {}
public:
    virtual ~basic_ios() {}
    bool good() const { return st_ == 0; }
    bool eof() const { return st_ & eofbit; }
    bool fail() const { return st_ & (failbit | badbit); }
    bool bad() const { return st_ & badbit; }
    bool operator!() const { return fail(); }
    explicit operator bool() const { return !fail(); }
    iostate rdstate() const { return st_; }
    void clear(iostate s = 0) { st_ = s; }
    void setstate(iostate s) { st_ |= s; }
    C fill() const { return fill_; }
    C fill(C c) { C o = fill_; fill_ = c; return o; }
    long width() const { return width_; }
    long width(long w) { long o = width_; width_ = w; return o; }
    long precision() const { return prec_; }
    long precision(long p) { long o = prec_; prec_ = p; return o; }
    fmtflags flags() const { return fl_; }
    basic_ios &copyfmt(const basic_ios &o) { fill_ = o.fill_; width_ = o.width_; prec_ = o.prec_; fl_ = o.fl_; return *this; }
    fmtflags setf(fmtflags f) { fmtflags o = fl_; fl_ |= f; return o; }
};
class vp_pos_ {
    long v_;
public:
    vp_pos_(long v) : v_(v) {}
    operator long() const { return v_; }
};
template <class C, class T> class basic_ostream : virtual public basic_ios<C, T> {
public:
    basic_ostream() {}
    typedef vp_pos_ pos_type;
    basic_ostream &raw(const C *s, size_t n) {
        if (this->fail() || !this->b_) { this->setstate(this->badbit); return *this; }
        std::vector<char> &d = *this->b_;
        if (this->append_) this->w_ = d.size();
        if (this->w_ + n > d.size()) d.resize(this->w_ + n);
        if (n) __builtin_memcpy(&d[this->w_], s, n);
        this->w_ += n;
        return *this;
    }
    basic_ostream &write(const C *s, long n) { return raw(s, n); }
    basic_ostream &put(C c) { return raw(&c, 1); }
    basic_ostream &padded(const C *s, size_t n) {
        const long w = this->width(0);
        if (!(this->flags() & this->left)) for (long i = n; i < w; i++) put(this->fill());
        raw(s, n);
        if (this->flags() & this->left) for (long i = n; i < w; i++) put(this->fill());
        return *this;
    }
    basic_ostream &number(bool neg, unsigned long long v) {
        char t[24]; int i = 24;
        do { t[--i] = (char)('0' + v % 10); v /= 10; } while (v);
        if (neg) t[--i] = '-';
        return padded(t + i, 24 - i);
    }
    basic_ostream &signed_(long long v) { return v < 0 ? number(true, 0ULL - (unsigned long long)v) : number(false, v); }
    basic_ostream &operator<<(short v) { return signed_(v); }
    basic_ostream &operator<<(unsigned short v) { return number(false, v); }
    basic_ostream &operator<<(int v) { return signed_(v); }
    basic_ostream &operator<<(unsigned v) { return number(false, v); }
    basic_ostream &operator<<(long v) { return signed_(v); }
    basic_ostream &operator<<(unsigned long v) { return number(false, v); }
    basic_ostream &operator<<(long long v) { return signed_(v); }
    basic_ostream &operator<<(unsigned long long v) { return number(false, v); }
    basic_ostream &operator<<(bool v) { return number(false, v); }
    // floating point text is outside the model: the raw bytes stand for it
    basic_ostream &operator<<(double v) { this->width(0); put('#'); return raw(reinterpret_cast<const char *>(&v), sizeof v); }
    basic_ostream &operator<<(float v) { return *this << (double)v; }
    basic_ostream &operator<<(basic_ostream &(*f)(basic_ostream &)) { return f(*this); }
    basic_ostream &flush() { return *this; }
    pos_type tellp() { return this->fail() ? -1 : (long)this->w_; }
    basic_ostream &seekp(long p) { this->w_ = p; return *this; }
    basic_ostream &seekp(long o, int dir) { this->w_ = (dir == this->beg ? 0 : dir == this->cur ? (long)this->w_ : (long)this->b_->size()) + o; return *this; }
};
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, const char *s) { return o.padded(s, __builtin_strlen(s)); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, char c) { return o.padded(&c, 1); }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, signed char c) { return o << (char)c; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, unsigned char c) { return o << (char)c; }
template <class C, class T> basic_ostream<C, T> &endl(basic_ostream<C, T> &o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T> &flush(basic_ostream<C, T> &o) { return o; }
template <class C, class T> basic_ostream<C, T> &ends(basic_ostream<C, T> &o) { return o.put('\0'); }

template <class C, class T> class basic_istream : virtual public basic_ios<C, T> {
protected:
    long g_;
public:
    basic_istream() : g_(0) {}
    typedef vp_pos_ pos_type;
    size_t avail() { return this->b_ && this->r_ < this->b_->size() ? this->b_->size() - this->r_ : 0; }
    basic_istream &read(C *s, long n) {
        g_ = 0;
        if (!this->good()) { this->setstate(this->failbit); return *this; }
        size_t a = avail(), m = (size_t)n < a ? (size_t)n : a;
        if (m) __builtin_memcpy(s, &(*this->b_)[this->r_], m);
        this->r_ += m; g_ = (long)m;
        if (m < (size_t)n) this->setstate(this->eofbit | this->failbit);
        return *this;
    }
    long readsome(C *s, long n) { size_t a = avail(); long m = (size_t)n < a ? n : (long)a; read(s, m); return m; }
    long gcount() const { return g_; }
    int get() { g_ = 0; if (!this->good() || !avail()) { this->setstate(this->eofbit | this->failbit); return -1; } g_ = 1; return (unsigned char)(*this->b_)[this->r_++]; }
    basic_istream &get(C &c) { int v = get(); if (v >= 0) c = (C)v; return *this; }
    int peek() { g_ = 0; if (!this->good()) return -1; if (!avail()) { this->setstate(this->eofbit); return -1; } return (unsigned char)(*this->b_)[this->r_]; }
    basic_istream &ignore(long n = 1, int delim = -1) { g_ = 0; long k = 0; while (k < n) { if (!avail()) { this->setstate(this->eofbit); break; } int c = (unsigned char)(*this->b_)[this->r_++]; k++; if (c == delim) break; } g_ = k; return *this; }
    pos_type tellg() { return this->fail() ? -1 : (long)this->r_; }
    basic_istream &seekg(long p) { this->st_ &= ~this->eofbit; this->r_ = p; return *this; }
    basic_istream &seekg(long o, int dir) { this->st_ &= ~this->eofbit; this->r_ = (dir == this->beg ? 0 : dir == this->cur ? (long)this->r_ : (long)this->b_->size()) + o; return *this; }
    void skipws_() { while (avail()) { char c = (*this->b_)[this->r_]; if (c == ' ' || (c >= 9 && c <= 13)) this->r_++; else break; } }
    template <class N> basic_istream &num_(N &v) {
        skipws_(); bool neg = false; int k = 0; unsigned long long u = 0;
        if (avail() && ((*this->b_)[this->r_] == '-' || (*this->b_)[this->r_] == '+')) neg = (*this->b_)[this->r_++] == '-';
        while (avail()) { char c = (*this->b_)[this->r_]; if (c < '0' || c > '9') break; u = u * 10 + (c - '0'); this->r_++; k++; }
        if (!avail()) this->setstate(this->eofbit);
        if (!k) { v = 0; this->setstate(this->failbit); } else v = (N)(neg ? 0ULL - u : u);
        return *this;
    }
    basic_istream &operator>>(int &v) { return num_(v); }
    basic_istream &operator>>(unsigned &v) { return num_(v); }
    basic_istream &operator>>(long &v) { return num_(v); }
    basic_istream &operator>>(unsigned long &v) { return num_(v); }
};
template <class T> basic_istream<char, T> &operator>>(basic_istream<char, T> &i, char &c) { i.skipws_(); return i.get(c); }
template <class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {
};
// ---- strings
#define VP_SSTREAM(NAME, BASE, MODE) \
template <class C, class T, class A> class NAME : public BASE<C, T> { \
public: \
    explicit NAME(int mode = MODE) { this->b_ = std::make_shared<std::vector<char> >(); (void)mode; } \
    explicit NAME(const std::basic_string<C, T, A> &s, int mode = MODE) { this->b_ = std::make_shared<std::vector<char> >(s.begin(), s.end()); if (mode & (ios_base::ate | ios_base::app)) this->w_ = s.size(); } \
    std::basic_string<C, T, A> str() const { return this->b_->empty() ? std::basic_string<C, T, A>() : std::basic_string<C, T, A>(&(*this->b_)[0], this->b_->size()); } \
    void str(const std::basic_string<C, T, A> &s) { this->b_ = std::make_shared<std::vector<char> >(s.begin(), s.end()); this->r_ = this->w_ = 0; } \
};
_GLIBCXX_BEGIN_NAMESPACE_CXX11
VP_SSTREAM(basic_stringstream, basic_iostream, 0)
VP_SSTREAM(basic_ostringstream, basic_ostream, 0)
VP_SSTREAM(basic_istringstream, basic_istream, 0)
_GLIBCXX_END_NAMESPACE_CXX11
// ---- files
#define VP_FSTREAM(NAME, BASE, DEF, FORCE) \
template <class C, class T> class NAME : public BASE<C, T> { \
public: \
    NAME() {} \
    explicit NAME(const std::string &p, int mode = DEF) { open(p, mode); } \
    void open(const std::string &p, int mode = DEF) { \
        mode |= FORCE; \
        vpio::Bytes it = vpio::find(p); \
        if (!it) { \
            if (!(mode & (ios_base::out | ios_base::app)) || ((mode & ios_base::in) && !(mode & (ios_base::trunc | ios_base::app)))) { this->setstate(ios_base::failbit); return; } \
            this->b_ = vpio::make(p); \
        } else { \
            this->b_ = it; \
            if ((mode & ios_base::trunc) || ((mode & ios_base::out) && !(mode & (ios_base::in | ios_base::app)))) this->b_->clear(); \
        } \
        this->append_ = mode & ios_base::app; \
        if (mode & ios_base::ate) this->w_ = this->r_ = this->b_->size(); \
    } \
    bool is_open() const { return (bool)this->b_; } \
    void close() { if (!this->b_) this->setstate(ios_base::failbit); this->b_.reset(); this->r_ = this->w_ = 0; } \
};
VP_FSTREAM(basic_fstream, basic_iostream, ios_base::in | ios_base::out, 0)
VP_FSTREAM(basic_ofstream, basic_ostream, ios_base::out, ios_base::out)
VP_FSTREAM(basic_ifstream, basic_istream, ios_base::in, ios_base::in)
// plain functions, preferred to the templates of <string>
inline ostream &operator<<(ostream &o, const string &s) { return o.padded(s.data(), s.size()); }
inline istream &operator>>(istream &i, string &s) {
    s.clear(); i.skipws_(); int c;
    while ((c = i.peek()) >= 0 && c != ' ' && !(c >= 9 && c <= 13)) s.push_back((char)i.get());
    if (s.empty()) i.setstate(ios_base::failbit);
    return i;
}
inline istream &getline(istream &i, string &s, char d) {
    s.clear(); int c; bool any = false;
    while (i.good() && (c = i.peek()) >= 0) { i.get(); any = true; if (c == d) return i; s.push_back((char)c); }
    if (!any) i.setstate(ios_base::failbit);
    return i;
}
inline istream &getline(istream &i, string &s) { return std::getline(i, s, '\n'); }
namespace vp_manip_ { struct W { long v; }; struct F { char c; }; struct P { long v; }; struct N {}; }
inline vp_manip_::W setw(int n) { return vp_manip_::W{n}; }
template <class C> inline vp_manip_::F setfill(C c) { return vp_manip_::F{(char)c}; }
inline vp_manip_::P setprecision(int n) { return vp_manip_::P{n}; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, vp_manip_::W w) { o.width(w.v); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, vp_manip_::F f) { o.fill(f.c); return o; }
template <class T> basic_ostream<char, T> &operator<<(basic_ostream<char, T> &o, vp_manip_::P p) { o.precision(p.v); return o; }
inline ostream &vp_std_(int k) { static stringstream *s[2] = {new stringstream, new stringstream}; return *s[k]; }
static ostream &cout = vp_std_(0);
static ostream &cerr = vp_std_(1);
static ostream &clog = vp_std_(1);
}
