// Parsers for the files the library writes: a strict little XML reader for the VTU exports and
// the three report files.
#pragma once
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <cctype>
#include <cmath>
#include <cstdlib>
#include <dirent.h>

namespace files {

inline bool slurp(const std::string &f, std::string &out)
{
	std::ifstream i(f, std::ios::binary); if (!i) return false;
	std::stringstream s; s << i.rdbuf(); out = s.str(); return true;
}
inline std::set<std::string> listing(const std::string &dir = ".")
{
	std::set<std::string> s; DIR *d = opendir(dir.c_str()); if (!d) return s;
	while (dirent *e = readdir(d)) { std::string n = e->d_name; if (n != "." && n != "..") s.insert(n); }
	closedir(d); return s;
}
// all words as numbers; false if any word is not a finite-or-not number at all
inline bool numbers(const std::string &t, std::vector<double> &v)
{
	const char *p = t.c_str();
	for (;;) {
		while (isspace((unsigned char) *p)) p++;
		if (!*p) return true;
		char *e; double x = strtod(p, &e);
		if (e == p || (*e && !isspace((unsigned char) *e))) return false;
		v.push_back(x); p = e;
	}
}

struct Array { std::string parent, type, format; int ncomp = 1; std::vector<double> v; };
struct Vtu {
	std::string err; int npts = -1, ncells = -1;
	std::map<std::string, Array> a;            // by Name
	std::map<std::string, int> elems;          // element name -> occurrences
	std::map<std::string, std::string> parent; // element name -> enclosing element
	std::string filetype;
};

inline bool namech(char c, bool first) { return isalpha((unsigned char) c) || c == '_' || c == ':' || (!first && (isdigit((unsigned char) c) || c == '-' || c == '.')); }

inline Vtu parse_vtu(const std::string &t)
{
	Vtu V; size_t p = 0; const size_t n = t.size();
	auto bad = [&](const std::string &m) { V.err = m + " at byte " + std::to_string(p); return V; };
	if (t.compare(0, 5, "<?xml") == 0) { p = t.find("?>"); if (p == std::string::npos) return bad("unterminated declaration"); std::string d = t.substr(0, p); if (d.find("version=\"1.0\"") == std::string::npos && d.find("version='1.0'") == std::string::npos && d.find("version=\"1.1\"") == std::string::npos) return bad("no such XML version"); p += 2; }
	std::vector<std::string> st; std::string text; Array *cur = nullptr; bool root_done = false;
	auto flush = [&]() -> bool {
		if (text.find('&') != std::string::npos || text.find("]]>") != std::string::npos) return false;
		if (cur) return true;
		if (st.empty()) { for (char c : text) if (!isspace((unsigned char) c)) return false; }
		text.clear(); return true;
	};
	while (p < n) {
		if (t[p] != '<') { text += t[p++]; continue; }
		if (!flush()) return bad("text not allowed here");
		p++;
		if (p < n && t[p] == '/') {
			p++; std::string nm; while (p < n && namech(t[p], nm.empty())) nm += t[p++];
			while (p < n && isspace((unsigned char) t[p])) p++;
			if (p >= n || t[p] != '>') return bad("bad end tag"); p++;
			if (st.empty() || st.back() != nm) return bad("end tag </" + nm + "> does not match");
			st.pop_back(); if (st.empty()) root_done = true;
			if (nm == "DataArray" && cur) { if (!numbers(text, cur->v)) return bad("a data array holds something that is not a number"); cur = nullptr; text.clear(); }
			continue;
		}
		if (t.compare(p, 3, "!--") == 0) { size_t e = t.find("-->", p); if (e == std::string::npos) return bad("comment"); p = e + 3; continue; }
		std::string nm; while (p < n && namech(t[p], nm.empty())) nm += t[p++];
		if (nm.empty()) return bad("bad tag");
		if (cur) return bad("element inside a data array");
		if (root_done) return bad("second root element");
		std::map<std::string, std::string> at; bool selfclose = false;
		for (;;) {
			size_t sp = p; while (p < n && isspace((unsigned char) t[p])) p++;
			if (p >= n) return bad("unterminated tag");
			if (t[p] == '>') { p++; break; }
			if (t[p] == '/' && p + 1 < n && t[p + 1] == '>') { p += 2; selfclose = true; break; }
			if (sp == p) return bad("missing space between attributes");
			std::string k, v; while (p < n && namech(t[p], k.empty())) k += t[p++];
			if (k.empty() || p >= n || t[p] != '=') return bad("bad attribute"); p++;
			char q = p < n ? t[p] : 0; if (q != '"' && q != '\'') return bad("attribute value not quoted"); p++;
			while (p < n && t[p] != q) { if (t[p] == '<') return bad("< in attribute"); v += t[p++]; } p++;
			if (at.count(k)) return bad("duplicate attribute"); at[k] = v;
		}
		V.elems[nm]++; V.parent[nm] = st.empty() ? "" : st.back();
		text.clear();
		if (nm == "Piece") { V.npts = atoi(at["NumberOfPoints"].c_str()); V.ncells = atoi(at["NumberOfCells"].c_str()); }
		if (nm == "VTKFile") V.filetype = at["type"];
		if (nm == "DataArray" && !selfclose) {
			if (V.a.count(at["Name"])) return bad("two data arrays named " + at["Name"]);
			cur = &V.a[at["Name"]]; cur->parent = st.empty() ? "" : st.back(); cur->type = at["type"]; cur->format = at["format"];
			cur->ncomp = at.count("NumberOfComponents") ? atoi(at["NumberOfComponents"].c_str()) : 1;
		}
		if (!selfclose) st.push_back(nm); else if (st.empty()) root_done = true;
	}
	if (!flush()) return bad("text after the root");
	if (!st.empty()) return bad("unclosed <" + st.back() + ">");
	if (!root_done) return bad("no root element");
	return V;
}

// data lines of a report file (comment and empty header lines dropped only if allowed)
struct Report { std::vector<std::string> comments; std::vector<std::vector<std::vector<std::string>>> lines; bool trailing_newline = true; };
inline Report parse_report(const std::string &t)
{
	Report R; std::stringstream ss(t); std::string l;
	R.trailing_newline = t.empty() || t.back() == '\n';
	while (std::getline(ss, l)) {
		if (!l.empty() && l[0] == '#') { R.comments.push_back(l); continue; }
		std::vector<std::vector<std::string>> groups; std::vector<std::string> g; std::stringstream w(l); std::string x; bool any = false;
		while (w >> x) { any = true; if (x == "|") { groups.push_back(g); g.clear(); } else g.push_back(x); }
		if (!any) { continue; }
		if (!g.empty()) groups.push_back(g); // group without its separator: still a group
		R.lines.push_back(groups);
	}
	return R;
}
inline double num(const std::string &s, bool &ok) { char *e; double v = strtod(s.c_str(), &e); if (*e || e == s.c_str()) ok = false; return v; }

} // namespace files
