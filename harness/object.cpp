// A line protocol on a few cloud objects and a few record vectors. Every answer is the complete observable state, as JSON.
#include "spoc/spoc.h"
#include <iostream>
#include <sstream>
using namespace std;
using namespace spoc;
using file::spoc_file;
using point_record::point_records;
typedef point_record::point_record pr;

static vector<spoc_file> O (3);
static vector<point_records> V (2);

static string unhex (const string &s)
{
    string o;
    if (s[0] == 'L') return string (stoul (s.substr (1)), 'w');
    if (s == "-") return o;
    for (size_t i = 0; i + 1 < s.size (); i += 2) o += (char) stoi (s.substr (i, 2), 0, 16);
    return o;
}
static string hex (const string &s)
{
    if (s.size () > 48) return "L" + to_string (s.size ());
    static const char *d = "0123456789abcdef";
    string o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o.empty () ? "-" : o;
}
// 9 fields, number of extra fields, extra fields
static pr get_rec (istream &in)
{
    unsigned long v[9];
    size_t E;
    for (auto &x : v) in >> x;
    in >> E;
    vector<uint64_t> e (E);
    for (auto &x : e) in >> x;
    return pr (v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], e);
}
static point_records get_recs (istream &in)
{
    size_t n;
    in >> n;
    point_records r;
    while (n--) r.push_back (get_rec (in));
    return r;
}
static string show (const point_records &v)
{
    stringstream o;
    o << '[';
    for (size_t k = 0; k < v.size (); ++k)
    {
        const auto &p = v[k];
        o << (k ? ",[" : "[") << (long) p.x << ',' << (long) p.y << ',' << (long) p.z << ',' << p.c << ',' << p.p << ',' << p.i << ',' << p.r << ',' << p.g << ',' << p.b;
        for (auto e : p.extra) o << ',' << e;
        o << ']';
    }
    o << ']';
    return o.str ();
}
static string show (const spoc_file &f)
{
    stringstream o;
    const auto &p = f.get_point_records ();
    o << "{\"w\":\"" << hex (f.get_wkt ()) << "\",\"c\":" << (f.get_compressed () ? "true" : "false") << ",\"m\":[" << f.get_major_version () << ',' << f.get_minor_version () << "],\"E\":" << f.get_extra_fields () << ",\"n\":" << p.size () << ",\"h\":";
    try
    {
        const auto h = f.get_header ();
        o << "[\"" << hex (h.wkt) << "\"," << (int) h.compressed << ',' << (int) h.extra_fields << ',' << h.total_points << ',' << (int) h.major_version << ',' << (int) h.minor_version << ']';
    }
    catch (const exception &) { o << "[]"; }
    o << ",\"recs\":" << show (p) << ",\"valid\":" << (f.is_valid () ? "true" : "false");
    // the columns and the single records have to say the same
    bool same = true;
    const auto x = f.get_x (), y = f.get_y (), z = f.get_z ();
    const auto c = f.get_c (), id = f.get_p ();
    const auto i = f.get_i (), r = f.get_r (), g = f.get_g (), b = f.get_b ();
    same = same && x.size () == p.size () && y.size () == p.size () && z.size () == p.size () && c.size () == p.size () && id.size () == p.size ()
        && i.size () == p.size () && r.size () == p.size () && g.size () == p.size () && b.size () == p.size ();
    for (size_t k = 0; same && k < p.size (); ++k)
    {
        const auto &q = f.get_point_record (k);
        same = x[k] == q.x && y[k] == q.y && z[k] == q.z && c[k] == q.c && id[k] == q.p && i[k] == q.i && r[k] == q.r && g[k] == q.g && b[k] == q.b && q == p[k];
    }
    if (same && f.is_valid ())
        for (size_t j = 0; j < f.get_extra_fields (); ++j)
        {
            const auto e = f.get_extra (j);
            same = same && e.size () == p.size ();
            for (size_t k = 0; same && k < p.size (); ++k) same = e[k] == p[k].extra[j];
        }
    if (f.is_valid ())
    {
        using namespace point_record;
        same = same && get_extra_fields_size (p) == f.get_extra_fields ();
        o << ",\"z\":[" << has_all_zero_c (p) << ',' << has_all_zero_p (p) << ',' << has_all_zero_i (p) << ',' << has_all_zero_r (p) << ','
          << has_all_zero_g (p) << ',' << has_all_zero_b (p) << ',' << has_all_zero_rgb (p);
        for (size_t j = 0; j < f.get_extra_fields (); ++j) o << ',' << has_all_zero_extra (j, p);
        o << ']';
    }
    o << ",\"cols\":" << (same ? "true" : "false") << '}';
    return o.str ();
}

int main ()
{
    string line;
    while (getline (cin, line))
    {
        stringstream in (line);
        string cmd;
        in >> cmd;
        bool ok = true;
        try
        {
            size_t a = 0, b = 0, i = 0;
            string w;
            int c = 0, maj = 0, mnr = 0;
            if (cmd == "new") { in >> a; O[a] = spoc_file (); }
            else if (cmd == "make") { in >> a >> w >> c; O[a] = spoc_file (unhex (w), c, get_recs (in)); }
            else if (cmd == "makev") { in >> a >> w >> c >> maj >> mnr; O[a] = spoc_file (maj, mnr, unhex (w), c, get_recs (in)); }
            else if (cmd == "copy") { in >> a >> b; spoc_file t (O[b]); O[a].swap (t); }
            else if (cmd == "assign") { in >> a >> b; O[a] = O[b]; }
            else if (cmd == "moveassign") { in >> a >> b; O[a] = std::move (O[b]); }
            else if (cmd == "movector") { in >> a >> b; spoc_file t (std::move (O[b])); O[a] = t; }
            else if (cmd == "swap") { in >> a >> b; O[a].swap (O[b]); }
            else if (cmd == "stdswap") { in >> a >> b; std::swap (O[a], O[b]); }
            else if (cmd == "clone") { in >> a >> b; O[a] = O[b].clone_empty (); }
            else if (cmd == "push") { in >> a; O[a].push_back (get_rec (in)); }
            else if (cmd == "pushself") { in >> a >> b >> i; O[a].push_back (O[b].get_point_record (i)); }
            else if (cmd == "set") { in >> a >> i; O[a].set_point_record (i, get_rec (in)); }
            else if (cmd == "setself") { in >> a >> i >> b; O[a].set_point_record (i, O[a].get_point_record (b)); }
            else if (cmd == "setall") { in >> a >> b; O[a].set_point_records (V[b]); }
            else if (cmd == "setfrom") { in >> a >> b; O[a].set_point_records (O[b].get_point_records ()); }
            else if (cmd == "movein") { in >> a >> b; O[a].move_point_records (V[b]); }
            else if (cmd == "moveout") { in >> a >> b; V[b] = O[a].move_point_records (); }
            else if (cmd == "moveback")
            {
                // as the documentation suggests for editing in place
                in >> a >> i;
                point_records t (O[a].move_point_records ());
                for (auto &p : t) p.extra.resize (i);
                O[a].move_point_records (t);
            }
            else if (cmd == "resize") { in >> a >> i; O[a].resize_extra_fields (i); }
            else if (cmd == "wkt") { in >> a >> w; O[a].set_wkt (unhex (w)); }
            else if (cmd == "comp") { in >> a >> c; O[a].set_compressed (c); }
            else if (cmd == "vec") { in >> b; V[b] = get_recs (in); }
            else if (cmd == "vcopy") { in >> b >> a; V[b] = O[a].get_point_records (); }
            else if (cmd == "vedit") { in >> b >> i; for (auto &p : V[b]) p.c = i; }
            else { cout << "unknown" << endl; continue; }
        }
        catch (const exception &) { ok = false; }
        cout << "{\"ok\":" << (ok ? "true" : "false") << ",\"o\":[";
        for (size_t k = 0; k < O.size (); ++k) cout << (k ? "," : "") << show (O[k]);
        cout << "],\"v\":[";
        for (size_t k = 0; k < V.size (); ++k) cout << (k ? "," : "") << show (V[k]);
        cout << "]}" << endl;
    }
    return 0;
}
