// The stream forms of the byte compressor on a destination that fails after LIM bytes:  zlimit deflate|inflate LIM KIND < IN
// prints ok or err and the number of bytes delivered
#include "spoc/compression.h"
#include <iostream>
#include <iterator>
#include <sstream>
using namespace std;

struct limited : streambuf
{
    size_t left, got = 0;
    char kind;      // p: takes what fits, o: one write fails and later ones do not, t: throws
    limited (size_t n, char kind) : left (n), kind (kind) {}
    size_t take (size_t n)
    {
        size_t k = min (n, left);
        if (k < n && kind == 't') throw runtime_error ("device");
        if (k < n && kind == 'o') left = ~0ul, k = 0;
        else left -= k;
        got += k;
        return k;
    }
    int_type overflow (int_type c) override { return take (1) ? c : traits_type::eof (); }
    streamsize xsputn (const char *, streamsize n) override { return take (n); }
};

int main (int argc, char **argv)
{
    if (argc != 4) return 3;
    const string in ((istreambuf_iterator<char> (cin)), istreambuf_iterator<char> ());
    stringstream is (in);
    limited b (stoull (argv[2]), *argv[3]);
    ostream os (&b);
    if (*argv[3] == 'f') os.setstate (ios::failbit);
    string r = "ok";
    try
    {
        if (string (argv[1]) == "deflate") spoc::compression::compress (is, os, -1);
        else spoc::compression::decompress (is, os);
    }
    catch (const exception &) { r = "err"; }
    cout << r << ' ' << b.got << endl;
    return 0;
}
