// The in-memory library operations behind the same command line as the applications.
// lib [--add-x=V ...] SRC DST       affine / quantize on the records (or, with --points, on a vector of points)
#include "spoc/spoc.h"
#include "spoc/affine.h"
#include "spoc/utils.h"
#include <fstream>
#include <iostream>
using namespace std;
using namespace spoc;

template<typename T>
void apply (T &p, const string &n, const double v)
{
    typename T::value_type o;
    o.x = o.y = o.z = 0.0;
    if (n == "add-x") affine::add_x (p, v);
    else if (n == "add-y") affine::add_y (p, v);
    else if (n == "add-z") affine::add_z (p, v);
    else if (n == "addv-x") { o.x = v; affine::add (p, o); }
    else if (n == "addv-y") { o.y = v; affine::add (p, o); }
    else if (n == "addv-z") { o.z = v; affine::add (p, o); }
    else if (n == "scale-x") affine::scale_x (p, v);
    else if (n == "scale-y") affine::scale_y (p, v);
    else if (n == "scale-z") affine::scale_z (p, v);
    else if (n == "rotate-x") affine::rotate_x (p, v);
    else if (n == "rotate-y") affine::rotate_y (p, v);
    else if (n == "rotate-z") affine::rotate_z (p, v);
    else if (n == "quantize-xyz") utils::quantize (p, v);
    else throw runtime_error ("unknown " + n);
}

int main (int argc, char **argv)
{
    try
    {
        vector<string> a (argv + 1, argv + argc);
        ifstream is (a[a.size () - 2]);
        auto f = io::read_spoc_file_uncompressed (is);
        auto prs = f.get_point_records ();
        vector<point::point<double>> pts;
        const bool points = a[0] == "--points";
        for (const auto &p : prs)
            pts.push_back (point::point<double> (p.x, p.y, p.z));
        for (size_t k = points; k + 2 < a.size (); ++k)
        {
            const auto e = a[k].find ('=');
            const string n = a[k].substr (2, e - 2);
            const double v = stod (a[k].substr (e + 1));
            if (points) apply (pts, n, v); else apply (prs, n, v);
        }
        if (points)
            for (size_t n = 0; n < prs.size (); ++n)
                prs[n].x = pts[n].x, prs[n].y = pts[n].y, prs[n].z = pts[n].z;
        f.set_point_records (prs);
        ofstream os (a.back ());
        io::write_spoc_file (os, f);
        return 0;
    }
    catch (const exception &e)
    {
        cerr << e.what () << endl;
        return 1;
    }
}
