// Stand-ins for the parts of the C++ library and of pybind11 that the bindings use, with the same meaning.
#ifndef VH_STD_HPP
#define VH_STD_HPP
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
namespace std {
using ::size_t;
class string {
    char text[200];
public:
    string() { text[0] = 0; }
    string(const char *s) { size_t i = 0; while (i < 199 && s[i]) { text[i] = s[i]; i++; } text[i] = 0; }
    const char *c_str() const { return text; }
    string operator+(const string &o) const { string r(text); size_t i = 0; while (r.text[i]) { i++; } for (size_t k = 0; i < 199 && o.text[k]; k++) { r.text[i++] = o.text[k]; } r.text[i] = 0; return r; }
};
inline string operator+(const char *a, const string &b) { return string(a) + b; }
inline string to_string(long) { return string("0"); }
class exception { public: exception() {} const char *what() const { return ""; } };
class runtime_error : public exception { public: explicit runtime_error(const char *) {} explicit runtime_error(const string &) {} };
class logic_error : public exception { public: explicit logic_error(const char *) {} explicit logic_error(const string &) {} };
class invalid_argument : public logic_error { public: using logic_error::logic_error; };
class out_of_range : public logic_error { public: using logic_error::logic_error; };
class length_error : public logic_error { public: using logic_error::logic_error; };

template <class T> class vector {
    T *p; size_t n;
    static T *make(size_t n) { return (T *)malloc(n * sizeof(T)); }
public:
    vector() : p(nullptr), n(0) {}
    // as in the library: a size that came from a negative number is refused
    explicit vector(size_t k) : p(nullptr), n(k) { if (k > 1000000) { throw length_error("vector"); } p = make(k); for (size_t i = 0; i < k; i++) { p[i] = T(); } }
    vector(size_t k, const T &v) : p(nullptr), n(k) { if (k > 1000000) { throw length_error("vector"); } p = make(k); for (size_t i = 0; i < k; i++) { p[i] = v; } }
    vector(int k, const T &v) : vector((size_t)(long)k, v) {}
    vector(int k, double v) : vector((size_t)(long)k, (T)v) {}
    explicit vector(int k) : vector((size_t)(long)k) {}
    template <class I> vector(const I *a, const I *b) : p(nullptr), n((size_t)(b - a)) { if (n > 1000000) { throw length_error("vector"); } p = make(n); for (size_t i = 0; i < n; i++) { p[i] = a[i]; } }
    vector(const vector &o) : vector(o.begin(), o.end()) {}
    vector &operator=(const vector &o) { p = make(o.n); n = o.n; for (size_t i = 0; i < n; i++) { p[i] = o.p[i]; } return *this; }
    T *data() { return p; }
    const T *data() const { return p; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    T &operator[](size_t i) { return p[i]; }
    const T &operator[](size_t i) const { return p[i]; }
    T *begin() { return p; }
    T *end() { return p + n; }
    const T *begin() const { return p; }
    const T *end() const { return p + n; }
    void resize(size_t k) { T *q = make(k); for (size_t i = 0; i < k; i++) { q[i] = i < n ? p[i] : T(); } p = q; n = k; }
    void resize(size_t k, const T &v) { const T w = v; T *q = make(k); for (size_t i = 0; i < k; i++) { q[i] = i < n ? p[i] : w; } p = q; n = k; }
    void assign(size_t k, const T &v) { p = make(k); n = k; for (size_t i = 0; i < k; i++) { p[i] = v; } }
    T &at(size_t i) { if (i >= n) { throw out_of_range("vector"); } return p[i]; }
    const T &at(size_t i) const { if (i >= n) { throw out_of_range("vector"); } return p[i]; }
    T &front() { return p[0]; }
    T &back() { return p[n - 1]; }
    const T *cbegin() const { return p; }
    const T *cend() const { return p + n; }
    void reserve(size_t) {}
    void clear() { n = 0; }
    void push_back(const T &v) { const T w = v; const size_t k = n; resize(k + 1); p[k] = w; }
};
template <class I, class V> void fill(I a, I b, const V &v) { for (; a != b; ++a) { *a = v; } }
template <class I, class O> O copy(I a, I b, O o) { for (; a != b; ++a, ++o) { *o = *a; } return o; }
template <class I, class O> O copy_n(I a, size_t n, O o) { for (size_t i = 0; i < n; i++, ++a, ++o) { *o = *a; } return o; }
template <class I, class N, class V> I fill_n(I a, N n, const V &v) { for (N i = 0; i < n; i++, ++a) { *a = v; } return a; }
template <class I, class O, class F> O transform(I a, I b, O o, F f) { for (; a != b; ++a, ++o) { *o = f(*a); } return o; }
template <class I, class F> F for_each(I a, I b, F f) { for (; a != b; ++a) { f(*a); } return f; }
template <class I, class F> bool any_of(I a, I b, F f) { for (; a != b; ++a) { if (f(*a)) { return true; } } return false; }
template <class I, class F> bool all_of(I a, I b, F f) { for (; a != b; ++a) { if (!f(*a)) { return false; } } return true; }
template <class I, class V> V accumulate(I a, I b, V v) { for (; a != b; ++a) { v = v + *a; } return v; }
template <class I> I max_element(I a, I b) { I m = a; for (; a != b; ++a) { if (*m < *a) { m = a; } } return m; }
template <class I> I min_element(I a, I b) { I m = a; for (; a != b; ++a) { if (*a < *m) { m = a; } } return m; }
template <class T> void swap(T &a, T &b) { const T t = a; a = b; b = t; }
template <class T> struct remove_reference { typedef T type; };
template <class T> struct remove_reference<T &> { typedef T type; };
template <class T> struct remove_reference<T &&> { typedef T type; };
template <class T> typename remove_reference<T>::type &&move(T &&t) { return static_cast<typename remove_reference<T>::type &&>(t); }
template <class T, size_t N> struct array {
    T v[N];
    T &operator[](size_t i) { return v[i]; }
    const T &operator[](size_t i) const { return v[i]; }
    T *data() { return v; }
    const T *data() const { return v; }
    size_t size() const { return N; }
    T *begin() { return v; }
    T *end() { return v + N; }
    void fill(const T &x) { for (size_t i = 0; i < N; i++) { v[i] = x; } }
};
template <class T> struct default_delete {};
template <class T> class unique_ptr;
template <class T> class unique_ptr<T[]> {
    T *p;
public:
    explicit unique_ptr(T *q = nullptr) : p(q) {}
    ~unique_ptr() { free(p); }
    unique_ptr(const unique_ptr &) = delete;
    T *get() const { return p; }
    T &operator[](size_t i) const { return p[i]; }
};
template <class T> const T &min(const T &a, const T &b) { return b < a ? b : a; }
template <class T> const T &max(const T &a, const T &b) { return a < b ? b : a; }
}
extern "C" void vh_made(void *array);
namespace pybind11 {
using ssize_t = ::ssize_t;
class index_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class value_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
class type_error : public std::runtime_error { public: using std::runtime_error::runtime_error; };
struct array { enum { c_style = 1, f_style = 2, forcecast = 16 }; };
// a NumPy array: contiguous, and copies refer to the same data
template <class T, int F = array::forcecast> class array_t {
public:
    int nd; ssize_t dim[3]; T *values;
    array_t() : nd(1), values((T *)malloc(0)) { dim[0] = 0; dim[1] = dim[2] = 0; }
    explicit array_t(ssize_t n) : nd(1), values(nullptr) { dim[0] = n; dim[1] = dim[2] = 0; if (n < 0) { throw value_error("negative dimensions are not allowed"); } values = (T *)malloc((size_t)n * sizeof(T)); }
    array_t(ssize_t n, const T *from) : array_t(n) { for (ssize_t i = 0; i < n; i++) { values[i] = from[i]; } }
    template <int G> array_t(const array_t<T, G> &o) : nd(o.nd), values(o.values) { dim[0] = o.dim[0]; dim[1] = o.dim[1]; dim[2] = o.dim[2]; }
    ssize_t ndim() const { return nd; }
    ssize_t shape(ssize_t i) const { if (i < 0 || i >= nd) { throw index_error("invalid axis"); } return dim[i]; }
    const ssize_t *shape() const { return dim; }
    ssize_t size() const { ssize_t n = 1; for (int i = 0; i < nd; i++) { n *= dim[i]; } return n; }
    ssize_t itemsize() const { return (ssize_t)sizeof(T); }
    ssize_t nbytes() const { return size() * itemsize(); }
    const T *data() const { return values; }
    const T *data(ssize_t i) const { return values + i; }
    T *mutable_data() { return values; }
    T *mutable_data(ssize_t i) { return values + i; }
    const T &at(ssize_t i) const { if (i < 0 || i >= dim[0]) { throw index_error("index"); } return values[i]; }
    T &mutable_at(ssize_t i) { if (i < 0 || i >= dim[0]) { throw index_error("index"); } return values[i]; }
    struct access { T *p; ssize_t n; T &operator()(ssize_t i) const { return p[i]; } T &operator[](ssize_t i) const { return p[i]; } ssize_t shape(ssize_t) const { return n; } };
    template <int N> access unchecked() const { if (N != nd) { throw std::runtime_error("ndim"); } return access{values, dim[0]}; }
    template <int N> access mutable_unchecked() { if (N != nd) { throw std::runtime_error("ndim"); } return access{values, dim[0]}; }
};
struct vh_doc { template <class T> vh_doc &operator=(const T &) { return *this; } };
struct module_ {
    vh_doc d;
    vh_doc &doc() { return d; }
    template <class F, class... X> module_ &def(const char *, F, X...) { return *this; }
};
struct arg { explicit arg(const char *) {} template <class T> arg &operator=(const T &) { return *this; } };
}
#define PYBIND11_MODULE(name, m) static void vh_module(pybind11::module_ &m)
#endif
