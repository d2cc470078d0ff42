// Emptiness test of a convex polyhedron (all variables >= 0), exact integer pivoting.
// Speeds up the linear-inequality abstract domain of rules/lin.py; returns -1 when the
// numbers do not fit and the caller falls back to its own rational arithmetic.
#include <unordered_map>
#include <vector>
#if __has_include(<Python.h>)
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#define HAVE_PY 1
#endif

// rows: m x (n + 1), sum a_j x_j + a_n >= 0
template<typename W, typename V>
static int core(int m, int n, const long long* rows)
{
    const int X0 = n + m;
    const int cols = n + 2; // n nonbasic + auxiliary + constant
    static thread_local std::vector<W> t;
    t.assign((size_t)(m + 1) * cols, 0);
    std::vector<int> nb(n + 1), bs(m);
    auto at = [&](int r, int c) -> W& { return t[(size_t)r * cols + c]; };
    for (int i = 0; i < m; ++i)
    {
        for (int j = 0; j < n; ++j)
            at(i, j) = rows[i * (n + 1) + j];
        at(i, n) = 1;
        at(i, n + 1) = rows[i * (n + 1) + n];
        bs[i] = n + i;
    }
    for (int j = 0; j < n; ++j)
        nb[j] = j;
    nb[n] = X0;
    for (int j = 0; j < cols; ++j)
        at(m, j) = 0;
    at(m, n) = -1; // maximise -x0
    W d = 1;
    const V lim = sizeof(W) == 16 ? (V)1 << 61 : (V)1 << 30;
    for (int i = 0; i < m; ++i)
        for (int j = 0; j < cols; ++j)
            if (at(i, j) > lim || at(i, j) < -lim)
                return -1;
    bool over = false;

    auto pivot = [&](int r, int s) {
        W p = at(r, s);
        int sg = p < 0 ? -1 : 1;
        for (int i = 0; i <= m; ++i)
        {
            if (i == r)
                continue;
            W q = at(i, s);
            for (int j = 0; j < cols; ++j)
            {
                if (j == s)
                    continue;
                V v = q == 0 ? (V)at(i, j) * p : (V)at(i, j) * p - (V)q * at(r, j);
                if (d != 1)
                    v /= d;
                v *= sg;
                if (v > lim || v < -lim)
                    over = true;
                at(i, j) = (W)v;
            }
            at(i, s) = q * sg;
        }
        for (int j = 0; j < cols; ++j)
            if (j != s)
                at(r, j) = -at(r, j) * sg;
        at(r, s) = d * sg;
        d = p * sg;
        int x = nb[s];
        nb[s] = bs[r];
        bs[r] = x;
    };

    int r0 = -1;
    for (int i = 0; i < m; ++i)
        if (at(i, n + 1) < 0 && (r0 < 0 || at(i, n + 1) < at(r0, n + 1)))
            r0 = i;
    if (r0 < 0)
        return 1;
    pivot(r0, n);
    for (int it = 0; it < 3000; ++it)
    {
        if (over)
            return -1;
        int s = -1;
        for (int j = 0; j <= n; ++j)
            if (at(m, j) > 0 && (s < 0 || nb[j] < nb[s]))
                s = j;
        if (s < 0)
            return at(m, n + 1) >= 0;
        int r = -1;
        for (int i = 0; i < m; ++i)
        {
            if (at(i, s) >= 0)
                continue;
            if (r < 0)
            {
                r = i;
                continue;
            }
            // k_i / -c_i < k_r / -c_r
            V a = (V)at(i, n + 1) * -at(r, s), b = (V)at(r, n + 1) * -at(i, s);
            if (a < b || (a == b && bs[i] < bs[r]))
                r = i;
        }
        if (r < 0)
            return -1; // cannot happen: -x0 is bounded by zero
        bool aux = bs[r] == X0;
        pivot(r, s);
        if (aux)
            return 1;
    }
    return -1;
}


extern "C" int poly_feasible(int m, int n, const long long* rows)
{
    // small numbers first: entries below 2^30, products in 64 bits
    int r = core<long long, long long>(m, n, rows);
    return r >= 0 ? r : core<__int128, __int128>(m, n, rows);
}

#ifdef HAVE_PY
namespace {
struct Row
{
    long long k;
    std::vector<std::pair<int, long long>> t;
};
} // namespace

// ineq: tuple of linear forms (const, ((symbol, coef), ...)) >= 0; extra: list of further ones; lbs: {symbol: lower bound};
// seed: a linear form: only what is connected to its symbols matters.  1 feasible, 0 not, -1 too large.
extern "C" int poly_query(PyObject* ineq, PyObject* extra, PyObject* lbs, PyObject* seed)
{
    PyObject* index = PyDict_New();
    std::vector<char> free_, on;
    std::vector<long long> lb;
    bool bad = false;
    auto var = [&](PyObject* s) -> int {
        PyObject* v = PyDict_GetItem(index, s);
        if (v)
            return (int)PyLong_AsLong(v);
        int id = (int)free_.size();
        PyObject* o = PyLong_FromLong(id);
        PyDict_SetItem(index, s, o);
        Py_DECREF(o);
        PyObject* l = PyDict_GetItem(lbs, s);
        int ov = 0;
        long long b = l ? PyLong_AsLongLongAndOverflow(l, &ov) : 0;
        if (ov)
            bad = true;
        free_.push_back(l == nullptr);
        lb.push_back(b);
        on.push_back(0);
        return id;
    };
    auto parse = [&](PyObject* r) {
        Row w;
        int ov = 0;
        w.k = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(r, 0), &ov);
        if (ov)
            bad = true;
        PyObject* ts = PyTuple_GET_ITEM(r, 1);
        Py_ssize_t n = PyTuple_GET_SIZE(ts);
        for (Py_ssize_t i = 0; i < n; ++i)
        {
            PyObject* p = PyTuple_GET_ITEM(ts, i);
            long long c = PyLong_AsLongLongAndOverflow(PyTuple_GET_ITEM(p, 1), &ov);
            if (ov)
                bad = true;
            w.t.emplace_back(var(PyTuple_GET_ITEM(p, 0)), c);
        }
        return w;
    };
    std::vector<Row> all, rows;
    Row sd = parse(seed);
    Py_ssize_t m = PyTuple_GET_SIZE(ineq);
    all.reserve(m);
    for (Py_ssize_t i = 0; i < m; ++i)
        all.push_back(parse(PyTuple_GET_ITEM(ineq, i)));
    m = PyList_GET_SIZE(extra);
    for (Py_ssize_t i = 0; i < m; ++i)
        rows.push_back(parse(PyList_GET_ITEM(extra, i)));
    Py_DECREF(index);
    if (bad || PyErr_Occurred())
    {
        PyErr_Clear();
        return -1;
    }
    for (auto& t : sd.t)
        on[t.first] = 1;
    for (auto& r : rows)
        for (auto& t : r.t)
            on[t.first] = 1;
    std::vector<char> used(all.size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < all.size(); ++i)
        {
            if (used[i])
                continue;
            bool hit = false;
            for (auto& t : all[i].t)
                hit |= on[t.first];
            if (!hit)
                continue;
            used[i] = 1;
            ch = true;
            for (auto& t : all[i].t)
                on[t.first] = 1;
            rows.push_back(all[i]);
        }
    }
    // shift to lower bounds, double the free variables, drop trivial rows
    std::vector<int> col(free_.size(), -1);
    int n = 0;
    std::vector<Row> cons;
    bool neg = false;
    for (auto& r : rows)
    {
        __int128 k = r.k;
        bool triv = true;
        for (auto& t : r.t)
        {
            if (!free_[t.first])
            {
                k += (__int128)t.second * lb[t.first];
                if (t.second < 0)
                    triv = false;
            }
            else
                triv = false;
        }
        if (k > ((__int128)1 << 60) || k < -((__int128)1 << 60))
            return -1;
        if (r.t.empty())
        {
            if (k < 0)
                return 0;
            continue;
        }
        if (k >= 0 && triv)
            continue;
        if (k < 0)
            neg = true;
        Row w = r;
        w.k = (long long)k;
        for (auto& t : w.t)
            if (col[t.first] < 0)
            {
                col[t.first] = n;
                n += free_[t.first] ? 2 : 1;
            }
        cons.push_back(std::move(w));
    }
    if (!neg)
        return 1;
    std::vector<long long> flat(cons.size() * (size_t)(n + 1), 0);
    for (size_t i = 0; i < cons.size(); ++i)
    {
        long long* o = &flat[i * (n + 1)];
        for (auto& t : cons[i].t)
        {
            o[col[t.first]] += t.second;
            if (free_[t.first])
                o[col[t.first] + 1] -= t.second;
        }
        o[n] = cons[i].k;
    }
    return poly_feasible((int)cons.size(), n, flat.data());
}
#endif
