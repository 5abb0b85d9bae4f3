/* C33: the complement of a strictly increasing array of indices below n. */
#include "array.hpp"
#include "spec.hpp"
using Helper::Array;
using Helper::complement;
using std::size_t;

/* Nothing excluded, any n. */
void spec_C33_none() {
    size_t n = spec::any_size();
    Array<size_t> v;
    Array<size_t> c = complement(n, v);
    spec::claim(c.size() == n, "all indices are listed");
    size_t k = spec::any_size();
    spec::assume(k < n);
    spec::claim(c[k] == k, "in order");
}

/* All below m excluded, any m up to any n: the rest remains. */
void spec_C33_prefix() {
    size_t n = spec::any_size(), m = spec::any_size();
    spec::assume(m <= n);
    Array<size_t> v(m);
    for (size_t i = 0; i != m; ++i) v[i] = i;
    Array<size_t> c = complement(n, v);
    spec::claim(c.size() == n - m, "the rest is listed");
    size_t k = spec::any_size();
    spec::assume(k < n - m);
    spec::claim(c[k] == m + k, "in order");
}

/* Every strictly increasing array below every n up to 5. */
void spec_C33x_small() {
    spec::unroll(8);
    size_t n = spec::any_size(), m = spec::any_size();
    spec::assume(n <= 5);
    spec::assume(m <= n);
    Array<size_t> v(m);
    for (size_t i = 0; i != m; ++i) {
        v[i] = spec::any_size();
        spec::assume(v[i] < n);
        if (i > 0) spec::assume(v[i - 1] < v[i]);
    }
    Array<size_t> c = complement(n, v);
    spec::claim(v.size() == m, "the argument is unchanged");
    spec::claim(c.size() == n - m, "as many indices as are missing");
    for (size_t i = 0; i != c.size(); ++i) {
        spec::claim(c[i] < n, "an index");
        if (i > 0) spec::claim(c[i - 1] < c[i], "strictly increasing");
        for (size_t j = 0; j != m; ++j) spec::claim(c[i] != v[j], "not excluded");
    }
}

/* Every strictly increasing array below seven. */
void spec_C33x_seven() {
    spec::unroll(10);
    size_t n = 7, m = spec::any_size();
    spec::assume(m <= n);
    Array<size_t> v(m);
    for (size_t i = 0; i != m; ++i) {
        v[i] = spec::any_size();
        spec::assume(v[i] < n);
        if (i > 0) spec::assume(v[i - 1] < v[i]);
    }
    Array<size_t> c = complement(n, v);
    spec::claim(c.size() == n - m, "as many indices as are missing");
    for (size_t i = 0; i != c.size(); ++i) {
        spec::claim(c[i] < n, "an index");
        if (i > 0) spec::claim(c[i - 1] < c[i], "strictly increasing");
        for (size_t j = 0; j != m; ++j) spec::claim(c[i] != v[j], "not excluded");
    }
}

/* A stretch of excluded indices of any length, anywhere below twenty. */
void spec_C33x_stretch() {
    spec::unroll(30);
    size_t n = 20, a = spec::any_size(), m = spec::any_size();
    spec::assume(m <= n);
    spec::assume(a <= n - m);
    Array<size_t> v(m);
    for (size_t i = 0; i != m; ++i) v[i] = a + i;
    Array<size_t> c = complement(n, v);
    spec::claim(c.size() == n - m, "the rest is listed");
    for (size_t k = 0; k != n - m; ++k) spec::claim(c[k] == (k < a ? k : k + m), "in order");
}

/* Every second, third or fifth index of up to 40. */
void spec_C33x_regular() {
    spec::unroll(50);
    size_t d = spec::any_bool() ? 2 : spec::any_bool() ? 3 : 5, s = spec::any_size(), n = spec::any_bool() ? 40 : 33;
    spec::assume(s < d);
    size_t m = 0;
    for (size_t j = s; j < n; j += d) ++m;
    Array<size_t> v(m);
    for (size_t i = 0; i != m; ++i) v[i] = s + i * d;
    Array<size_t> c = complement(n, v);
    spec::claim(c.size() == n - m, "as many indices as are missing");
    size_t k = 0;
    for (size_t j = 0; j != n; ++j) { if (j % d != s) { spec::claim(c[k] == j, "in order"); ++k; } }
}
