// reads the .vtu, .pvtu and .vtk files that the solver writes
#pragma once
#include <zlib.h>
#include <fstream>
#include <sstream>
#include <map>
#include <string>
#include <vector>
#include <cstdint>
#include <cstring>
#include <cmath>
namespace vtu {
struct Piece {
	std::string error;
	size_t points = 0, cells = 0;
	std::map<std::string, std::vector<double> > data; // point data; "" are the coordinates (3 per point)
	std::vector<std::string> names;                   // of the point data, in order
	std::map<std::string, std::vector<double> > mesh; // connectivity, offsets, types
};
inline std::string attribute(const std::string& tag, const std::string& name) {
	const size_t a = tag.find(" " + name + "=\"");
	if (a == std::string::npos)
		return "";
	const size_t b = a + name.size() + 3;
	return tag.substr(b, tag.find('"', b) - b);
}
inline std::vector<unsigned char> base64(const std::string& s, size_t& pos, size_t bytes) {
	std::vector<unsigned char> r;
	auto val = [](char c) {
		return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1;
	};
	for (size_t k = 0; k < (bytes + 2) / 3; k++) {
		uint32_t w = 0;
		for (int j = 0; j < 4; j++) {
			const int v = pos < s.size() ? val(s[pos]) : -1;
			pos++;
			w = w << 6 | (v < 0 ? 0 : v);
		}
		for (int j = 2; j >= 0; j--)
			r.push_back(w >> (8 * j) & 255);
	}
	r.resize(bytes);
	return r;
}
/// content of a DataArray element
inline bool array(const std::string& tag, const std::string& text, std::vector<double>& out) {
	const std::string format = attribute(tag, "format"), type = attribute(tag, "type");
	if (text.find_first_not_of(" \t\r\n") == std::string::npos) // a process without cells
		return true;
	if (format == "ascii") {
		std::istringstream in(text);
		std::string t;
		while (in >> t)
			out.push_back(strtod(t.c_str(), nullptr));
		return true;
	}
	if (format != "binary")
		return false;
	std::string s;
	for (char c : text)
		if (!isspace((unsigned char) c))
			s += c;
	size_t pos = 0;
	auto h = base64(s, pos, 16);
	uint32_t n[4];
	memcpy(n, h.data(), 16);
	if (n[0] != 1)
		return false;
	std::vector<unsigned char> z = base64(s, pos, n[3]), raw(n[1]);
	uLongf len = raw.size();
	if (uncompress(raw.data(), &len, z.data(), z.size()) != Z_OK || len != raw.size())
		return false;
	auto read = [&](auto zero) {
		typedef decltype(zero) T;
		for (size_t k = 0; k + sizeof(T) <= raw.size(); k += sizeof(T)) {
			T v;
			memcpy(&v, &raw[k], sizeof(T));
			out.push_back(v);
		}
	};
	if (type == "Float32")
		read(float());
	else if (type == "Float64")
		read(double());
	else if (type == "Int32")
		read(int32_t());
	else if (type == "Int64")
		read(int64_t());
	else if (type == "UInt8")
		read(uint8_t());
	else
		return false;
	return true;
}
inline std::string slurp(const std::string& file) {
	std::ifstream f(file, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}
inline Piece read(const std::string& file) {
	Piece p;
	const std::string s = slurp(file);
	if (s.find("</VTKFile>") == std::string::npos) {
		p.error = "no complete file";
		return p;
	}
	const size_t a = s.find("<Piece");
	if (a == std::string::npos) {
		p.error = "no piece";
		return p;
	}
	const std::string piece = s.substr(a, s.find('>', a) - a);
	p.points = strtoul(attribute(piece, "NumberOfPoints").c_str(), nullptr, 10);
	p.cells = strtoul(attribute(piece, "NumberOfCells").c_str(), nullptr, 10);
	std::string section;
	for (size_t i = a; (i = s.find('<', i)) != std::string::npos; i++) {
		const size_t e = s.find('>', i);
		const std::string tag = s.substr(i, e - i);
		for (const char* n : { "<Points", "<Cells", "<PointData", "<CellData" })
			if (tag.compare(0, strlen(n), n) == 0 && (tag.size() == strlen(n) || isspace((unsigned char) tag[strlen(n)])))
				section = n + 1;
		if (tag.compare(0, 10, "<DataArray") != 0)
			continue;
		std::vector<double> v;
		if (!array(tag, s.substr(e + 1, s.find("</DataArray", e) - e - 1), v)) {
			p.error = "data array cannot be decoded";
			return p;
		}
		std::string name = attribute(tag, "Name");
		if (section == "Points")
			p.data[""] = v;
		else if (section == "Cells")
			p.mesh[name] = v;
		else {
			p.names.push_back(name);
			p.data[name] = v;
		}
	}
	return p;
}
struct Master {
	std::vector<std::string> pieces, names;
	bool complete = false;
};
inline Master master(const std::string& file) {
	Master m;
	const std::string s = slurp(file);
	m.complete = s.find("</VTKFile>") != std::string::npos;
	bool data = false;
	for (size_t i = 0; (i = s.find('<', i)) != std::string::npos; i++) {
		const std::string tag = s.substr(i, s.find('>', i) - i);
		if (tag.compare(0, 11, "<PPointData") == 0)
			data = true;
		else if (tag.compare(0, 12, "</PPointData") == 0)
			data = false;
		else if (tag.compare(0, 6, "<Piece") == 0)
			m.pieces.push_back(attribute(tag, "Source"));
		else if (data && tag.compare(0, 11, "<PDataArray") == 0)
			m.names.push_back(attribute(tag, "Name"));
	}
	return m;
}
struct Grid {
	std::vector<std::vector<double> > points;
	std::vector<std::vector<size_t> > cells;
	bool ok = false;
};
/// legacy ascii .vtk
inline Grid grid(const std::string& file) {
	Grid g;
	std::ifstream f(file);
	std::string t;
	while (f >> t) {
		if (t == "POINTS") {
			size_t n;
			f >> n >> t;
			for (size_t k = 0; k < n; k++) {
				std::vector<double> x(3);
				f >> x[0] >> x[1] >> x[2];
				g.points.push_back(x);
			}
		} else if (t == "CELLS") {
			size_t n, m;
			f >> n >> m;
			for (size_t k = 0; k < n; k++) {
				size_t c;
				f >> c;
				std::vector<size_t> v(c);
				for (size_t& x : v)
					f >> x;
				g.cells.push_back(v);
			}
			g.ok = bool(f);
		}
	}
	return g;
}
} // namespace vtu
