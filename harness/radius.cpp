// One radius search per line, the calls of the operation as a line of JSON.
#include "spoc/spoc.h"
#include "spoc/radius_search.h"
#include <cstring>
#include <iostream>
#include <omp.h>
#include <sstream>
using namespace std;
using namespace spoc;

static double bits (const string &s)
{
    const uint64_t u = stoull (s, 0, 16);
    double d;
    memcpy (&d, &u, 8);
    return d;
}

static void make (point_record::point_record &p, double x, double y, double z) { p.x = x, p.y = y, p.z = z; }
static void make (point::point<double> &p, double x, double y, double z) { p.x = x, p.y = y, p.z = z; }

template<typename P>
static string search (const string &kind, istream &in)
{
    string r;
    size_t limit, n;
    int threads;
    in >> threads >> r >> limit >> n;
    const size_t rep = kind == "crowd" ? stoul (r.substr (r.find (',') + 1)) : 1;
    r = r.substr (0, r.find (','));
    const double radius = bits (r);
    vector<P> pts (n);
    for (auto &p : pts)
    {
        string x, y, z;
        in >> x >> y >> z;
        make (p, bits (x), bits (y), bits (z));
    }
    vector<size_t> a, b;
    for (auto v : { &a, &b })
    {
        in >> n;
        v->resize (n);
        for (auto &x : *v) in >> x;
    }
    const size_t base = b.size ();
    for (size_t k = base; k < base * rep; ++k) b.push_back (b[k - base]);   // the candidates, again and again
    if (threads) omp_set_num_threads (threads);   // 0: as the environment says
    vector<pair<size_t,vector<size_t>>> calls;
    auto op = [&] (size_t i, const vector<size_t> &v)
    {
#pragma omp critical
        calls.emplace_back (i, v);
    };
    using namespace radius_search;
    if (kind == "search" || kind == "crowd") radius_search::radius_search (pts, a, b, radius, op, limit);
    else if (kind == "search32") radius_search::radius_search (pts, a, b, radius, op);
    else if (kind == "indexes") radius_search_indexes (pts, a, radius, op, limit);
    else if (kind == "indexes32") radius_search_indexes (pts, a, radius, op);
    else if (kind == "alln") radius_search_all_neighbors (pts, a, radius, op, limit);
    else if (kind == "all") radius_search_all (pts, radius, op, limit);
    else if (kind == "all32") radius_search_all (pts, radius, op);
    else
    {
        const auto x = radius_search_get_neighbors (pts, radius);
        for (size_t i = 0; i < x.size (); ++i) calls.emplace_back (i, x[i]);
    }
    sort (calls.begin (), calls.end ());
    stringstream o;
    o << '[';
    for (size_t k = 0; k < calls.size (); ++k)
    {
        o << (k ? ",[" : "[") << calls[k].first << ",[";
        if (kind == "crowd")     // are they different, and how many are there of each
        {
            auto v = calls[k].second;
            sort (v.begin (), v.end ());
            vector<size_t> c (base);
            bool ok = unique (v.begin (), v.end ()) == v.end ();
            for (auto x : v)
            {
                if (x < b.size ()) ++c[x % base];
                else ok = false;
            }
            for (size_t j = 0; j < base; ++j) o << c[j] << ',';
            o << ok << "]]";
            continue;
        }
        for (size_t j = 0; j < calls[k].second.size (); ++j) o << (j ? "," : "") << calls[k].second[j];
        o << "]]";
    }
    o << ']';
    return o.str ();
}

int main ()
{
    string line;
    while (getline (cin, line))
    {
        istringstream in (line);
        string kind, type;
        in >> kind >> type;
        cout << (type == "record" ? search<point_record::point_record> (kind, in) : search<point::point<double>> (kind, in)) << endl;
    }
}
