// Builds a value of spoc/json.h from a line in prefix notation and prints it in both forms, as tokens.
#include "spoc/json.h"
#include <cstring>
#include <iostream>
#include <list>
#include <sstream>
using namespace std;
using namespace spoc;

static list<string> kept;     // for const char *

static string unhex (const string &x)
{
    string v;
    for (size_t k = 1; k < x.size (); k += 2) v += char (stoi (x.substr (k, 2), 0, 16));
    return v;
}

static json::value build (istream &in)
{
    string t, x;
    in >> t >> x;
    if (t == "int") return json::value (int (stol (x)));
    if (t == "char") return json::value (char (stol (x)));
    if (t == "u8") return json::value (uint8_t (stoul (x)));
    if (t == "u16") return json::value (uint16_t (stoul (x)));
    if (t == "u32") return json::value (uint32_t (stoul (x)));
    if (t == "u64") return json::value (uint64_t (stoull (x)));
    if (t == "float") return json::value (stof (x));
    if (t == "double") return json::value (stod (x));
    if (t == "bool") return json::value (x == "true");
    if (t == "string") return json::value (unhex (x));
    if (t == "chars")
    {
        kept.push_back (unhex (x));
        return json::value (kept.back ().c_str ());
    }
    size_t n = stoul (x);
    if (t == "array")
    {
        json::array a;
        while (n--) a.push_back (build (in));
        return json::value (a);
    }
    json::object o;
    while (n--)
    {
        in >> x;
        o[unhex (x)] = build (in);
    }
    return json::value (o);
}

static string quoted (const string &s)
{
    string o = "\"";
    for (unsigned char c : s)
    {
        char b[8];
        if (c < 32 || c > 126 || c == '"' || c == '\\') snprintf (b, 8, "\\u%04x", c), o += b;
        else o += c;
    }
    return o + "\"";
}

// text between white space and marks, or in quotes
static string tokens (const string &s)
{
    string o = "[";
    for (size_t k = 0; k < s.size ();)
    {
        if (isspace ((unsigned char) s[k])) { ++k; continue; }
        string t, v;
        if (string ("[]{},:").find (s[k]) != string::npos) t = s[k++];
        else if (s[k] == '\'' || s[k] == '"')
        {
            const auto e = s.find (s[k], k + 1);
            t = e == string::npos ? "open" : "str";
            v = s.substr (k + 1, e == string::npos ? e : e - k - 1);
            k = e == string::npos ? s.size () : e + 1;
        }
        else
        {
            while (k < s.size () && !isspace ((unsigned char) s[k]) && string ("[]{},:'\"").find (s[k]) == string::npos) v += s[k++];
            t = v == "true" || v == "false" ? "log" : "num";
        }
        o += string (o == "[" ? "" : ",") + "{\"t\":\"" + t + "\",\"s\":" + quoted (v) + "}";
    }
    return o + "]";
}

int main ()
{
    string line;
    while (getline (cin, line))
    {
        istringstream in (line);
        string how;
        in >> how;
        const auto v = build (in);
        stringstream a, b;
        // a report is an object or an array: print it as what it is, too
        if (how == "value") json::operator<< (a, v), json::pretty_print (b, v, 0);
        else if (v.type () == typeid (json::object)) json::operator<< (a, any_cast<json::object> (v)), json::pretty_print (b, any_cast<json::object> (v), 0);
        else json::operator<< (a, any_cast<json::array> (v)), json::pretty_print (b, any_cast<json::array> (v), 0);
        cout << "{\"compact\":" << tokens (a.str ()) << ",\"pretty\":" << tokens (b.str ()) << "}" << endl;
    }
}
