// Library readers and writers on one byte stream. One command per input line, one result line per command:
//   open HEX          the stream holds these bytes                                   -> ok
//   write MODE CLOUD  appends (MODE auto unc comp rec hdr)                           -> ok HEX-of-appended | err
//   read MODE         reads on from the current position                             -> ok USED WKTHEX COMP E N words... | err
//   limit MODE BYTES CLOUD  writes to a stream that fails after BYTES bytes          -> ok | err
// CLOUD is WKTHEX COMP N E followed by N times (9+E) words
#include "spoc/spoc.h"
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace std;
using namespace spoc;

static string unhex (const string &s)
{
    string o;
    if (s == "-") return o;
    for (size_t i = 0; i + 1 < s.size (); i += 2)
        o += (char) stoi (s.substr (i, 2), 0, 16);
    return o;
}
static string hex (const string &s)
{
    static const char *d = "0123456789abcdef";
    string o;
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o.empty () ? "-" : o;
}
static double dbl (uint64_t v) { double d; memcpy (&d, &v, 8); return d; }
static uint64_t bits (double d) { uint64_t v; memcpy (&v, &d, 8); return v; }

static file::spoc_file get_cloud (istream &in)
{
    string w;
    int comp;
    size_t n, E;
    in >> w >> comp >> n >> E;
    point_record::point_records prs;
    for (size_t k = 0; k < n; ++k)
    {
        uint64_t v[9];
        for (auto &x : v) in >> x;
        vector<uint64_t> e (E);
        for (auto &x : e) in >> x;
        prs.push_back (point_record::point_record (dbl (v[0]), dbl (v[1]), dbl (v[2]), v[3], v[4], v[5], v[6], v[7], v[8], e));
    }
    return file::spoc_file (unhex (w), comp, prs);
}

static void put_rec (ostream &o, const point_record::point_record &p)
{
    o << ' ' << bits (p.x) << ' ' << bits (p.y) << ' ' << bits (p.z) << ' ' << p.c << ' ' << p.p << ' ' << p.i << ' ' << p.r << ' ' << p.g << ' ' << p.b;
    for (auto e : p.extra) o << ' ' << e;
}

static void write (const string &mode, ostream &os, const file::spoc_file &f)
{
    if (mode == "auto") io::write_spoc_file (os, f);
    else if (mode == "unc") io::write_spoc_file_uncompressed (os, f);
    else if (mode == "comp") io::write_spoc_file_compressed (os, f);
    else if (mode == "rec")
    {
        header::write_header (os, f.get_header ());
        for (const auto &p : f.get_point_records ())
            point_record::write_point_record (os, p);
    }
    else if (mode == "hdr") header::write_header (os, f.get_header ());
}

// -> the result words; throws
static string read (const string &mode, istream &is)
{
    const auto at = is.tellg ();
    stringstream o;
    if (mode == "rec" || mode == "hdr")
    {
        const auto h = header::read_header (is);
        stringstream rs;
        if (mode == "rec")
        {
            if (h.compressed) throw runtime_error ("compressed");
            for (size_t k = 0; k < h.total_points; ++k)
                put_rec (rs, point_record::read_point_record (is, h.extra_fields));
        }
        is.clear ();
        o << is.tellg () - at << ' ' << hex (h.wkt) << ' ' << (h.compressed ? 1 : 0) << ' ' << (unsigned) h.extra_fields << ' ' << h.total_points << rs.str ();
    }
    else
    {
        const auto f = mode == "unc" ? io::read_spoc_file_uncompressed (is)
            : mode == "comp" ? io::read_spoc_file_compressed (is) : io::read_spoc_file (is);
        is.clear ();
        const auto h = f.get_header ();
        o << is.tellg () - at << ' ' << hex (f.get_wkt ()) << ' ' << f.get_compressed () << ' ' << f.get_extra_fields () << ' ' << f.get_point_records ().size ();
        // the header and the column accessors have to tell the same as the records
        const auto &p = f.get_point_records ();
        if (h.wkt != f.get_wkt () || h.total_points != p.size () || h.extra_fields != f.get_extra_fields () || (h.compressed != 0) != f.get_compressed ())
            o << " MISMATCH";
        const auto x = f.get_x (), y = f.get_y (), z = f.get_z ();
        const auto c = f.get_c (), id = f.get_p ();
        const auto i = f.get_i (), r = f.get_r (), g = f.get_g (), b = f.get_b ();
        vector<vector<uint64_t>> e;
        for (size_t j = 0; j < f.get_extra_fields (); ++j) e.push_back (f.get_extra (j));
        for (size_t k = 0; k < p.size (); ++k)
        {
            put_rec (o, f.get_point_record (k));
            if (bits (x[k]) != bits (p[k].x) || bits (y[k]) != bits (p[k].y) || bits (z[k]) != bits (p[k].z) || c[k] != p[k].c || id[k] != p[k].p
                || i[k] != p[k].i || r[k] != p[k].r || g[k] != p[k].g || b[k] != p[k].b)
                o << " MISMATCH";
            for (size_t j = 0; j < e.size (); ++j)
                if (e[j][k] != p[k].extra[j]) o << " MISMATCH";
        }
    }
    return o.str ();
}

// accepts a number of bytes and fails from then on
struct limited : streambuf
{
    size_t left, got = 0;
    char kind;      // p: takes what fits, o: one write fails and later ones do not, t: throws
    limited (size_t n, char kind) : left (n), kind (kind) {}
    size_t take (size_t n)
    {
        size_t k = min (n, left);
        if (k < n && kind == 't') throw runtime_error ("device");
        if (k < n && kind == 'o') left = ~0ul, k = 0;
        else left -= k;
        got += k;
        return k;
    }
    int_type overflow (int_type c) override { return take (1) ? c : traits_type::eof (); }
    streamsize xsputn (const char *, streamsize n) override { return take (n); }
};

int main ()
{
    string line;
    stringstream st;
    while (getline (cin, line))
    {
        stringstream in (line);
        string cmd, mode;
        in >> cmd >> mode;
        try
        {
            if (cmd == "open")
            {
                st.clear ();
                st.str (unhex (mode));
                st.seekg (0);
                st.seekp (0, ios::end);
                cout << "ok" << endl;
            }
            else if (cmd == "write")
            {
                st.clear ();
                const size_t before = st.str ().size ();
                write (mode, st, get_cloud (in));
                cout << "ok " << hex (st.str ().substr (before)) << endl;
            }
            else if (cmd == "read")
            {
                const string r = read (mode, st);
                cout << "ok " << r << endl;
            }
            else if (cmd == "limit")
            {
                size_t n;
                char kind;      // or f: the stream has failed before
                in >> n >> kind;
                limited b (n, kind);
                ostream os (&b);
                if (kind == 'f') os.setstate (ios::failbit);
                write (mode, os, get_cloud (in));
                cout << "ok" << endl;
            }
            else
                cout << "unknown" << endl;
        }
        catch (const exception &)
        {
            cout << "err" << endl;
        }
    }
    return 0;
}
