// The .npy reader and writer.  Element bits are arbitrary.
#include "vp.hpp"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <stdexcept>
#include "ldaplusplus/NumpyFormat.hpp"
using namespace ldaplusplus;
#ifndef TYPE_
#define TYPE_ double
#endif
#ifndef R_
#define R_ 2
#endif
#ifndef NC_
#define NC_ 3
#endif
#ifndef PRE_
#define PRE_ 0
#endif
#ifndef ROWMAJOR_
#define ROWMAJOR_ 0
#endif
typedef TYPE_ E;
enum { W = 8 * sizeof(E) };
template <class T> struct Kind { static const char *name(); };
#define KIND(T, N) template <> struct Kind<T> { static const char *name() { return N; } };
KIND(int8_t, "i1") KIND(int16_t, "i2") KIND(int32_t, "i4") KIND(int64_t, "i8") KIND(uint8_t, "u1") KIND(uint16_t, "u2") KIND(uint32_t, "u4") KIND(uint64_t, "u8") KIND(float, "f4") KIND(double, "f8")
template <class T> static uint64_t bits(const T &v) { uint64_t u = 0; memcpy(&u, &v, sizeof v); return u; }
template <class T> static void put(T &v, uint64_t u) { memcpy(&v, &u, sizeof v); }
typedef Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic, ROWMAJOR_ ? Eigen::RowMajor : Eigen::ColMajor> M1;
typedef Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic, Eigen::ColMajor> MC;
typedef Eigen::Matrix<E, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor> MR;

static std::string num(int v) { std::string s; do { s.insert(s.begin(), (char)('0' + v % 10)); v /= 10; } while (v); return s; }

#if MODE_ == 0
// what follows the key in the header dictionary
static size_t after(const std::string &h, const std::string &key) {
    size_t p = h.find("'" + key + "'");
    if (p == std::string::npos) p = h.find("\"" + key + "\"");
    vp_assert(p != std::string::npos, "the header names descr, fortran_order and shape");
    p += key.size() + 2;
    while (p < h.size() && (h[p] == ' ' || h[p] == ':')) p++;
    return p;
}
#endif

extern "C" void vp_main() {
    const int r = R_ < 0 ? vp_choice("r", -R_) : vp_concrete(R_), c = NC_ < 0 ? vp_choice("c", -NC_) : vp_concrete(NC_);
#if MODE_ == 0 || MODE_ == 3
    // ---- written, inspected, read back
    M1 m(r, c);
    for (int j = 0; j < c; j++) for (int i = 0; i < r; i++) put(m(i, j), r * c > 400 && (i * c + j) % 997 ? (uint64_t)(i * 31 + j) : vp_bits("x", W));   // large arrays: mostly known elements
#if PRE_
    // earlier arrays: of the same type, read into the same object, and with different shapes
    std::vector<uint64_t> first(PRE_);
    for (int i = 0; i < PRE_; i++) first[i] = vp_bits("first", W);
#endif
#if MODE_ == 0
    std::stringstream ss(std::ios::in | std::ios::out | std::ios::binary);
    for (int i = 0; i < PRE_; i++) {
#if PRE_
        Eigen::Matrix<E, Eigen::Dynamic, 1> one(1 + i); one.fill(0); put(one[i], first[i]);
        ss << numpy_format::NumpyOutput<E>(one);
#endif
    }
    const size_t from = (size_t)ss.tellp();
    ss << numpy_format::NumpyOutput<E>(m);
    const std::string all = ss.str(), f = all.substr(from);
    vp_assert(f.size() > 10 && f.substr(0, 6) == "\x93NUMPY" && f[6] == 1 && f[7] == 0, "magic and version");
    const size_t hl = (unsigned char)f[8] + 256 * (size_t)(unsigned char)f[9];
    vp_assert(f.size() >= 10 + hl, "header length is that of the header");
    const std::string h = f.substr(10, hl);
    vp_assert((10 + hl) % 16 == 0 && h[hl - 1] == '\n' && h[0] == '{', "the header is padded to a multiple of 16");
    vp_assert(h.find_last_not_of(" \n") == h.find_last_of('}'), "the header is padded to a multiple of 16");
    size_t p = after(h, "descr");
    vp_assert(h.substr(p + 1, 3) == std::string(W == 8 ? h.substr(p + 1, 1) : "<") + Kind<E>::name() && (h[p + 1] == '<' || (W == 8 && h[p + 1] == '|')), "descr is the element type");
    p = after(h, "fortran_order");
    const bool fortran = h.substr(p, 4) == "True";
    vp_assert(fortran || h.substr(p, 5) == "False", "fortran_order is a truth value");
    p = after(h, "shape");
    vp_assert(h[p] == '(', "shape is a tuple");
    std::vector<int> dims;
    for (p++; h[p] != ')'; ) {
        if (h[p] < '0' || h[p] > '9') { p++; continue; }
        int v = 0;
        while (h[p] >= '0' && h[p] <= '9') v = v * 10 + (h[p++] - '0');
        dims.push_back(v);
    }
    vp_assert(dims.size() == 2 && dims[0] == r && dims[1] == c, "shape is that of the matrix");
    vp_assert(f.size() == 10 + hl + (size_t)r * c * sizeof(E), "the elements follow the header");
    const char *d = f.data() + 10 + hl;
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        uint64_t u = 0;
        memcpy(&u, d + (fortran ? j * r + i : i * c + j) * sizeof(E), sizeof(E));
        vp_assert_bits(u, bits(m(i, j)), "the elements are stored in the declared order");
    }
    // reading: earlier arrays first
    numpy_format::NumpyInput<E> ni;
    for (int i = 0; i < PRE_; i++) {
#if PRE_
        ss >> ni;
        Eigen::Matrix<E, Eigen::Dynamic, 1> one = ni;
        vp_assert(one.rows() == 1 + i, "earlier arrays come back");
        vp_assert_bits(bits(one[i]), first[i], "earlier arrays come back");
#endif
    }
    ss >> ni;
    MC a = ni; MR b = ni;
    vp_assert(ni.shape().size() == 2 && (int)ni.shape()[0] == r && (int)ni.shape()[1] == c, "the shape comes back");
#else
    // through the file helpers
    numpy_format::save("m.npy", m);
    MC a = numpy_format::load<E>(std::string("m.npy"));
    std::stringstream st(std::ios::in | std::ios::out | std::ios::binary);
    numpy_format::save(st, m); numpy_format::save(st, m);
    MR b;
    b = numpy_format::load<E>(st);
    vp_assert(b.rows() == r && b.cols() == c, "the shape comes back");
    b = numpy_format::load<E>(st);
#endif
    vp_assert(a.rows() == r && a.cols() == c && b.rows() == r && b.cols() == c, "the shape comes back");
    for (int i = 0; i < r; i++) for (int j = 0; j < c; j++) {
        vp_assert_bits(bits(a(i, j)), bits(m(i, j)), "the elements come back bit for bit");
        vp_assert_bits(bits(b(i, j)), bits(m(i, j)), "the elements come back bit for bit");
    }
#else
    // ---- a file written by numpy itself
    const bool big = BIG_, fortran = FORTRAN_;
    const int nd = vp_concrete(ND_), depth = nd >= 3 ? 2 : 1, last = nd >= 4 ? 3 : 1;
    const int rows = nd ? r : 1, cols = nd > 1 ? c * depth * last : 1;
    std::string descr = std::string(W == 8 ? "|" : big ? ">" : "<") + Kind<E>::name();
#if MODE_ == 2
    // something is wrong with it
    static const char *OTHER[] = {"<i1", "<i2", "<i4", "<i8", "<u1", "<u2", "<u4", "<u8", "<f4", "<f8", ">f8", ">f4", ">i4", "|b1", "|S8", "<c8", "|O", "<U4", "<f2"};
    const int fault = vp_choice("fault", 6);
    if (fault == 0) {
        descr = OTHER[vp_choice("descr", sizeof(OTHER) / sizeof(*OTHER))];
        vp_assume(descr.substr(1) != Kind<E>::name());
    }
#endif
    std::string h = "{'descr': '" + descr + "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': (";
    if (nd == 1) h += num(r) + ",";
    if (nd > 1) h += num(r) + ", " + num(c);
    if (nd > 2) h += ", " + num(depth);
    if (nd > 3) h += ", " + num(last);
#if MODE_ == 2
    if (fault == 5) {
        // far more elements than stored: around the sizes at which a 32 bit count wraps to nothing
        static const char *LARGE[] = {"65536, 6553?", "4, 4, 26843545?", "2, 2147483?48", "-1, -?"};
        std::string large = LARGE[vp_choice("shape", 4)];
        const uint64_t digit = vp_bits("digit", 8);
        vp_assume(digit >= '0' && digit <= '9');
        large[large.find('?')] = (char)digit;
        h = h.substr(0, h.rfind('(') + 1) + large;
    }
#endif
    h += "), }";
    while ((10 + h.size() + 1) % ALIGN_) h += ' ';
    h += '\n';
    std::string f = "\x93NUMPY";
    f += (char)1; f += (char)0; f += (char)(h.size() % 256); f += (char)(h.size() / 256);
    f += h;
#if MODE_ == 4
    const int at = 8 + vp_choice("at", (int)h.size() + 2);
#else
    const int at = 10;
#endif
    std::vector<uint64_t> x(rows * cols);
    for (size_t i = 0; i < x.size(); i++) {
        x[i] = at < 10 ? 3 * i + 40 : vp_bits("x", W);
        for (int b = 0; b < (int)sizeof(E); b++) f += (char)(x[i] >> (8 * (big ? (int)sizeof(E) - 1 - b : b)));
    }
#if MODE_ == 4
    // one byte of the header is arbitrary: either an exception or an array, no stray memory access
    const char was = f[at];
    f[at] = (char)(at < 10 ? vp_choice("byte", 256) : vp_bits("byte", 8));
    const bool same = f[at] == was;
    bool threw = false;
    try {
        std::stringstream ss(f, std::ios::in | std::ios::out | std::ios::binary);
        numpy_format::NumpyInput<E> ni;
        ss >> ni;
        MC a = ni;
        vp_assert(a.rows() >= 0 && a.cols() >= 0 && a.rows() * a.cols() <= rows * cols, "no more elements than stored");
    } catch (const std::exception &) { threw = true; }
    vp_assert(!(threw && same), "an intact array is read");
#elif MODE_ == 2
    if (fault == 1) { const uint64_t v = vp_bits("version", 8); vp_assume(v >= 2); f[6] = (char)v; }
    if (fault == 2) f = f.substr(0, vp_choice("cut", (int)f.size()));
    if (fault == 3) { const int at = vp_choice("magic", 6); const uint64_t v = vp_bits("flip", 8); vp_assume(v != 0); f[at] = (char)(f[at] ^ v); }
    numpy_format::NumpyInput<E> ni;
    bool threw = false;
    try {
        if (fault == 4) numpy_format::load<E>(std::string("does-not-exist.npy"));
        else { std::stringstream ss(f, std::ios::in | std::ios::out | std::ios::binary); ss >> ni; MC a = ni; }
    } catch (const std::exception &) { threw = true; }
    vp_assert(threw, "what cannot be read is rejected");
#else
    f += "rest";
    std::stringstream ss(f, std::ios::in | std::ios::out | std::ios::binary);
    numpy_format::NumpyInput<E> ni;
    ss >> ni;
    vp_assert(ni.fortran_contiguous() == fortran, "storage order is the declared one");
    vp_assert((int)ni.shape().size() == nd, "shape is the declared one");
    MC a = ni; MR b = ni;
    vp_assert(a.rows() == rows && a.cols() == cols && b.rows() == rows && b.cols() == cols, "shape is the declared one");
    for (int i = 0; i < rows; i++) for (int j = 0; j < cols; j++) {
        const uint64_t u = x[fortran ? j * rows + i : i * cols + j];
        vp_assert_bits(bits(a(i, j)), u, "element (i, j) is the stored element (i, j)");
        vp_assert_bits(bits(b(i, j)), u, "element (i, j) is the stored element (i, j)");
    }
    vp_assert((long)ss.tellg() == (long)f.size() - 4, "nothing after the array is consumed");
#endif
#endif
}
