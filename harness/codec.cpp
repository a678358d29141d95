// The byte compressor on files:  codec deflate|inflate FORM N IN OUT
// FORM buffer, pointer, stream, drip (a stream that hands out a few bytes at a time). N: level, or the number of bytes demanded (-1: none)
#include "spoc/compression.h"
#include <fstream>
#include <iterator>
#include <sstream>
#include <vector>
using namespace std;
using namespace spoc::compression;

struct drip : streambuf
{
    const string &s; size_t at = 0; unsigned k = 0;
    explicit drip (const string &x) : s (x) {}
    int_type underflow () override
    {
        if (at == s.size ()) return traits_type::eof ();
        const size_t n = min<size_t> (1 + (k++ * 7919) % 65537, s.size () - at);
        char *p = const_cast<char *> (s.data ()) + at;
        setg (p, p, p + n);
        at += n;
        return traits_type::to_int_type (*p);
    }
};

int main (int argc, char **argv)
{
    if (argc != 6) return 3;
    const string op = argv[1], form = argv[2];
    const long n = stol (argv[3]);
    ifstream f (argv[4], ios::binary);
    const string in ((istreambuf_iterator<char> (f)), istreambuf_iterator<char> ());
    string out;
    try
    {
        const vector<uint8_t> v (in.begin (), in.end ());
        vector<uint8_t> r;
        if (op == "deflate" && form == "buffer") r = compress (v, n);
        else if (op == "deflate" && form == "pointer") r = compress (v.data (), v.size (), n);
        else if (op == "inflate" && form == "buffer") r = decompress (v);
        else if (op == "inflate" && form == "pointer")
        {
            r.assign (n + 16, 0xA5);
            decompress (v, r.data (), n);
            for (int k = 0; k < 16; ++k) if (r[n + k] != 0xA5) throw runtime_error ("wrote too far");
            r.resize (n);
        }
        else if (form == "stream" || form == "drip")
        {
            stringstream ss (in), os;
            drip d (in);
            istream ds (&d);
            istream &is = form == "drip" ? ds : ss;
            if (op == "deflate") compress (is, os, n); else decompress (is, os);
            const string s = os.str ();
            r.assign (s.begin (), s.end ());
        }
        else return 3;
        out.assign (r.begin (), r.end ());
    }
    catch (const exception &) { return 1; }
    ofstream o (argv[5], ios::binary);
    o << out;
    return o.flush () ? 0 : 3;
}
