// Extents, voxels, encodings, equality, hashes and order: one question per line, one line of JSON as answer. 64-bit words are lists of
// four 16-bit limbs.
#include "spoc/spoc.h"
#include "spoc/extent.h"
#include "spoc/voxel.h"
#include <cmath>
#include <cstring>
#include <iostream>
#include <map>
#include <omp.h>
#include <set>
#include <sstream>
#include <unordered_set>
using namespace std;
using namespace spoc;
typedef point_record::point_record REC;
typedef point::point<double> PT;

static uint64_t word (istream &in) { string s; in >> s; return stoull (s, 0, 16); }
static double dbl (istream &in) { const uint64_t u = word (in); double d; memcpy (&d, &u, 8); return d; }
static size_t num (istream &in) { size_t n; in >> n; return n; }
static string limbs (uint64_t u)
{
    stringstream o;
    o << '[' << (u >> 48) << ',' << (u >> 32 & 0xffff) << ',' << (u >> 16 & 0xffff) << ',' << (u & 0xffff) << ']';
    return o.str ();
}
static string limbs (double d) { uint64_t u; memcpy (&u, &d, 8); return limbs (u); }
template<typename F> static string list (size_t n, F f)
{
    string o = "[";
    for (size_t k = 0; k < n; ++k) o += (k ? "," : "") + f (k);
    return o + "]";
}
template<typename T> static vector<T> points (istream &in)
{
    vector<T> v (num (in));
    for (auto &p : v) p.x = dbl (in), p.y = dbl (in), p.z = dbl (in);
    return v;
}
static PT pt (istream &in) { PT p; p.x = dbl (in), p.y = dbl (in), p.z = dbl (in); return p; }
static string show (const PT &p) { return limbs (p.x) + "," + limbs (p.y) + "," + limbs (p.z); }
static string show (const spoc::extent::extent &e) { return "[" + show (e.minp) + "," + show (e.maxp) + "]"; }
static string show (const voxel::voxel_index &v) { stringstream o; o << '[' << (int64_t) v.i << ',' << (int64_t) v.j << ',' << (int64_t) v.k << ']'; return o.str (); }

template<typename P> static string voxels (const string &mode, istream &in)
{
    const int threads = num (in);
    const double res = dbl (in);
    const PT a = pt (in);
    const auto p = points<P> (in);
    vector<size_t> idx (num (in));
    for (auto &i : idx) in >> i;
    if (threads) omp_set_num_threads (threads);   // 0: as the environment says
    vector<voxel::voxel_index> v;
    if (mode == "one") for (auto &q : p) v.push_back (voxel::get_voxel_index (q, a, res));
    else if (mode == "anchor") v = voxel::get_voxel_indexes (p, spoc::extent::extent {a, a}, res);
    else if (mode == "index") v = voxel::get_voxel_indexes (p, idx, res);
    else v = voxel::get_voxel_indexes (p, res);
    const auto set = voxel::get_voxel_index_set (v);
    const auto map = voxel::get_voxel_index_map (v);
    const vector<voxel::voxel_index> s (set.begin (), set.end ());
    vector<string> m;
    for (auto &i : map) m.push_back ("[" + show (i.first) + "," + list (i.second.size (), [&] (size_t k) { return to_string (i.second[k]); }) + "]");
    return "{\"v\":" + list (v.size (), [&] (size_t k) { return show (v[k]); }) + ",\"set\":" + list (s.size (), [&] (size_t k) { return show (s[k]); })
        + ",\"map\":" + list (m.size (), [&] (size_t k) { return m[k]; }) + "}";
}

template<typename T> static string relations (const T &a, const T &b, int ne, int hashes, int inset)
{
    stringstream o;
    o << "{\"eq\":" << (a == b ? "true" : "false") << ",\"ne\":" << ne << ",\"hash\":" << hashes << ",\"set\":" << inset << '}';
    return o.str ();
}
template<typename T, typename H> static int members (const T &a, const T &b)
{
    unordered_set<T, H> s;
    s.insert (a), s.insert (b), s.insert (a), s.insert (b);
    return s.size ();
}
static REC record (istream &in)
{
    const double x = dbl (in), y = dbl (in), z = dbl (in);
    uint64_t u[6];
    for (auto &v : u) v = word (in);
    vector<uint64_t> e (num (in));
    for (auto &v : e) v = word (in);
    return REC (x, y, z, u[0], u[1], u[2], u[3], u[4], u[5], e);
}
static header::header head (istream &in)
{
    string sig, wkt;
    in >> sig >> wkt;
    const size_t major = num (in), minor = num (in), extra = num (in);
    const uint64_t total = word (in);
    header::header h (major, minor, wkt, extra, total);
    h.compressed = num (in);
    memcpy (h.signature, sig.data (), 4);
    return h;
}
template<typename T> static point::point<T> ipoint (istream &in) { point::point<T> p; p.x = (T) word (in), p.y = (T) word (in), p.z = (T) word (in); return p; }

// a number that has to be an integer
static string whole (double v)
{
    const double w = std::floor (v);
    return v == w && std::fabs (v) < 2147483648.0 ? to_string ((long) v) : "2147483647";
}
static string whole (const PT &p, double unit) { return "[" + whole (p.x / unit) + "," + whole (p.y / unit) + "," + whole (p.z / unit) + "]"; }
static string near (double v) { return std::fabs (v) < 2147483647.0 ? to_string (std::llround (v)) : "2147483647"; }
template<typename P> static void number (P &, size_t) {}
static void number (REC &p, size_t n) { p.c = 3 * n + 1, p.p = n + 7, p.i = n + 2, p.r = n + 3, p.g = n + 4, p.b = n + 5, p.extra = {n, ~n}; }
template<typename P> static bool same (const P &a, const P &b) { return a == b && !memcmp (&a.x, &b.x, 8) && !memcmp (&a.y, &b.y, 8) && !memcmp (&a.z, &b.z, 8); }
template<typename P> static string crop (istream &in)
{
    const PT a = pt (in), b = pt (in);
    auto p = points<P> (in);
    for (size_t n = 0; n < p.size (); ++n) number (p[n], n);
    const auto before = p;
    const auto q = utils::crop (p, spoc::extent::extent {a, b});
    // which ones: the points are all different
    vector<string> idx;
    bool ok = p == before;
    for (auto &i : q)
    {
        size_t n = 0;
        while (n < p.size () && !same (p[n], i)) ++n;
        idx.push_back (to_string (n));
    }
    return "{\"idx\":" + list (idx.size (), [&] (size_t k) { return idx[k]; }) + ",\"same\":" + (ok ? "true" : "false") + "}";
}
template<typename P> static string center (istream &in)
{
    const double unit = dbl (in);
    const auto p = points<P> (in);
    const auto c = utils::get_center (p);
    const double f = 16.0 * p.size () / unit;
    return "[" + near (c.x * f) + "," + near (c.y * f) + "," + near (c.z * f) + "]";
}
// distance of what came back, in units of the last bit of the largest number of that coordinate
static string err (double v, double w, double lo, double hi)
{
    const double m = std::max ({std::fabs (lo), std::fabs (hi), hi - lo, 5e-324});
    return near (std::ceil (std::fabs (v - w) / m * 4503599627370496.0));
}
static string relative (const string &type, istream &in)
{
    const PT a = pt (in), b = pt (in);
    const auto p = points<PT> (in);
    vector<point::point<uint64_t>> w;
    vector<PT> q;
    const spoc::extent::extent e {a, b};
    if (type == "all") w = spoc::extent::rescale (p, e), q = spoc::extent::restore (w, e);
    else for (auto &i : p) w.push_back (spoc::extent::rescale (i, b - a, a)), q.push_back (spoc::extent::restore (w.back (), b - a, a));
    if (w.size () != p.size () || q.size () != p.size ()) return "{}";
    return "{\"w\":" + list (w.size (), [&] (size_t k) { return "[" + limbs (w[k].x) + "," + limbs (w[k].y) + "," + limbs (w[k].z) + "]"; })
        + ",\"err\":" + list (q.size (), [&] (size_t k) { return "[" + err (q[k].x, p[k].x, a.x, b.x) + "," + err (q[k].y, p[k].y, a.y, b.y) + "," + err (q[k].z, p[k].z, a.z, b.z) + "]"; }) + "}";
}

static string answer (const string &line)
{
    istringstream in (line);
    string cmd, type;
    in >> cmd >> type;
    if (cmd == "extent")
        return show (type == "record" ? spoc::extent::get_extent (points<REC> (in)) : spoc::extent::get_extent (points<PT> (in)));
    if (cmd == "total")
    {
        const PT a = pt (in), b = pt (in), c = pt (in), d = pt (in);
        return show (spoc::extent::get_total_extent (spoc::extent::extent {a, b}, spoc::extent::extent {c, d}));
    }
    if (cmd == "crop") return type == "record" ? crop<REC> (in) : crop<PT> (in);
    if (cmd == "center") return type == "record" ? center<REC> (in) : center<PT> (in);
    if (cmd == "box")
    {
        const double unit = dbl (in);
        const PT a = pt (in), b = pt (in);
        const spoc::extent::extent e {a, b};
        return "{\"area\":" + whole (spoc::extent::get_area (e) / unit / unit) + ",\"volume\":" + whole (spoc::extent::get_volume (e) / unit / unit / unit) + "}";
    }
    if (cmd == "distance")
    {
        const double unit = dbl (in);
        const PT a = pt (in), b = pt (in);
        REC p, q;
        p.x = a.x, p.y = a.y, p.z = a.z, q.x = b.x, q.y = b.y, q.z = b.z;
        return to_string ((long) std::floor ((type == "record" ? point::distance (p, q) : point::distance (a, b)) / unit * 32.0 + 1e-6));
    }
    if (cmd == "arith")
    {
        const double unit = dbl (in);
        const PT a = pt (in), b = pt (in);
        PT p = a, m = a;
        p += b, m -= b;
        return "{\"plus\":" + whole (a + b, unit) + ",\"minus\":" + whole (a - b, unit) + ",\"pluseq\":" + whole (p, unit) + ",\"minuseq\":" + whole (m, unit) + "}";
    }
    if (cmd == "about")
    {
        const size_t digits = num (in);
        const auto a = points<PT> (in), b = points<PT> (in);
        if (type == "default") return to_string (point::about_equal (a, b));
        if (type == "all") return to_string (point::about_equal (a, b, digits));
        if (type == "point") return to_string (point::about_equal (a[0], b[0], digits));
        return to_string (point::about_equal (a[0].x, b[0].x, digits) && point::about_equal (a[0].y, b[0].y, digits) && point::about_equal (a[0].z, b[0].z, digits));
    }
    if (cmd == "relative") return relative (type, in);
    if (cmd == "absolute")
    {
        const double unit = dbl (in);
        const PT a = pt (in), b = pt (in);
        vector<point::point<uint64_t>> w (num (in));
        for (auto &q : w) q = ipoint<uint64_t> (in);
        const double f = 16384.0 / unit;
        const auto q = spoc::extent::restore (w, spoc::extent::extent {a, b});
        return list (q.size (), [&] (size_t k) { return "[" + near ((q[k].x - a.x) * f) + "," + near ((q[k].y - a.y) * f) + "," + near ((q[k].z - a.z) * f) + "]"; });
    }
    if (cmd == "voxel")
    {
        string mode;
        in >> mode;
        return type == "record" ? voxels<REC> (mode, in) : voxels<PT> (mode, in);
    }
    if (cmd == "codec")
    {
        if (type == "extent")
        {
            const PT a = pt (in), b = pt (in);
            return show (spoc::extent::decode_extent (spoc::extent::encode_extent (spoc::extent::extent {a, b})));
        }
        if (type == "point") return "[" + show (point::decode_point (point::encode_point (pt (in)))) + "]";
        if (type == "points")
        {
            const auto q = point::decode_points<double> (point::encode_points (points<PT> (in)));
            return list (q.size (), [&] (size_t k) { return show (q[k]); });
        }
        vector<point::point<uint64_t>> p (num (in));
        for (auto &q : p) q = ipoint<uint64_t> (in);
        const auto q = point::decode_points<uint64_t> (point::encode_points (p));
        return list (q.size (), [&] (size_t k) { return limbs (q[k].x) + "," + limbs (q[k].y) + "," + limbs (q[k].z); });
    }
    if (cmd == "eq")
    {
        if (type == "record")
        {
            const auto a = record (in), b = record (in);
            const point_record::point_record_hash h;
            return relations (a, b, a != b, h (a) == h (b), members<REC, point_record::point_record_hash> (a, b));
        }
        if (type == "header")
        {
            const auto a = head (in), b = head (in);
            return relations (a, b, a != b, 2, 0);
        }
        if (type == "extent")
        {
            const PT a = pt (in), b = pt (in), c = pt (in), d = pt (in);
            const spoc::extent::extent e {a, b}, f {c, d};
            return relations (e, f, !(e == f), 2, 0);
        }
        if (type == "voxel")
        {
            const size_t i = word (in), j = word (in), k = word (in), l = word (in), m = word (in), n = word (in);
            const voxel::voxel_index a (i, j, k), b (l, m, n);
            const voxel::voxel_index_hash h;
            return relations (a, b, !(a == b), h (a) == h (b), members<voxel::voxel_index, voxel::voxel_index_hash> (a, b));
        }
        if (type == "point")
        {
            const PT a = pt (in), b = pt (in);
            const point::point_hash<double> h;
            return relations (a, b, a != b, h (a) == h (b), members<PT, point::point_hash<double>> (a, b));
        }
        const auto a = ipoint<uint64_t> (in), b = ipoint<uint64_t> (in);
        const point::point_hash<uint64_t> h;
        return relations (a, b, a != b, h (a) == h (b), members<point::point<uint64_t>, point::point_hash<uint64_t>> (a, b));
    }
    if (cmd == "order")
    {
        const auto p = points<PT> (in);
        const set<PT> s (p.begin (), p.end ());
        const unordered_set<PT, point::point_hash<double>> u (p.begin (), p.end ());
        auto q = p;
        sort (q.begin (), q.end ());
        return "{\"lt\":" + list (p.size (), [&] (size_t k) { return list (p.size (), [&] (size_t j) { return to_string (p[k] < p[j]); }); })
            + ",\"set\":" + to_string (s.size ()) + ",\"hashed\":" + to_string (u.size ())
            + ",\"sorted\":" + list (q.size (), [&] (size_t k) { return "[" + show (q[k]) + "]"; }) + "}";
    }
    return "unknown";
}

int main ()
{
    string line;
    while (getline (cin, line)) cout << answer (line) << endl;
}
