// An application as a server: its main is called again and again in one process.
// A request on the control descriptor: "IN OUT ERR HEXARG..." with names of files for the standard streams; the answer is the status.
#include <cstdio>
#include <cstdlib>
#include <getopt.h>
#include <iostream>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
using namespace std;

extern "C" int again_main (int argc, char **argv);

int main (int, char **argv)
{
    FILE *in = fdopen (atoi (argv[1]), "r"), *out = fdopen (atoi (argv[2]), "w");
    char *line = nullptr;
    size_t n = 0;
    while (getline (&line, &n, in) > 0)
    {
        istringstream s (line);
        string i, o, e, x;
        s >> i >> o >> e;
        vector<string> a;
        while (s >> x)
        {
            string v;
            for (size_t k = 1; k < x.size (); k += 2) v += char (stoi (x.substr (k, 2), 0, 16));
            a.push_back (v);
        }
        vector<char *> p;
        for (auto &v : a) p.push_back (&v[0]);
        p.push_back (nullptr);
        if (!freopen (i.c_str (), "rb", stdin) || !freopen (o.c_str (), "wb", stdout) || !freopen (e.c_str (), "wb", stderr)) return 99;
        cin.clear ();
        cout.clear ();
        cerr.clear ();
        clog.clear ();
        optind = 0;
        int rc = again_main (a.size (), p.data ());
        cout.flush ();
        cerr.flush ();
        clog.flush ();
        if (fflush (stdout)) rc = rc ? rc : 98;
        fflush (stderr);
        fprintf (out, "%d\n", rc & 255);
        fflush (out);
    }
}
