// Reading back ParaView's unstructured grids as MFEM writes them (text, or base64 without compression).
#ifndef VTU_HPP
#define VTU_HPP
#include "common.hpp"
#include <fstream>
struct VtuArray { int comps; std::vector<double> x; };
inline std::vector<unsigned char> base64(const std::string &s)
{
   std::vector<unsigned char> o; unsigned acc = 0; int bits = 0;
   for (char ch : s) { int v = ch >= 'A' && ch <= 'Z' ? ch - 'A' : ch >= 'a' && ch <= 'z' ? ch - 'a' + 26 : ch >= '0' && ch <= '9' ? ch - '0' + 52 : ch == '+' ? 62 : ch == '/' ? 63 : -1; if (v < 0) continue; acc = (acc << 6) | v; bits += 6; if (bits >= 8) { bits -= 8; o.push_back((acc >> bits) & 255); } } return o;
}
inline std::map<std::string, VtuArray> read_vtu(const std::string &file)
{
   std::ifstream f(file); CHECK(f.good(), "no file %s", file.c_str()); std::string t((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); std::map<std::string, VtuArray> out; size_t at = 0;
   while ((at = t.find("<DataArray", at)) != std::string::npos)
   {
      size_t e = t.find('>', at), z = t.find("</DataArray>", e); CHECK(z != std::string::npos, "%s is cut off", file.c_str()); std::string tag = t.substr(at, e - at), body = t.substr(e + 1, z - e - 1); at = z;
      auto attr = [&](const std::string &k) { size_t p = tag.find(k + "=\""); if (p == std::string::npos) return std::string(); p += k.size() + 2; return tag.substr(p, tag.find('"', p) - p); };
      std::string name = attr("Name"), type = attr("type"); VtuArray a; a.comps = attr("NumberOfComponents").empty() ? 1 : std::stoi(attr("NumberOfComponents")); if (type.find("Float") == std::string::npos) continue;
      if (attr("format") == "ascii") { std::stringstream ss(body); double v; while (ss >> v) a.x.push_back(v); }
      else
      {
         size_t h = body.find_first_not_of(" \n\t"); std::string head = body.substr(h, 8), rest = body.substr(h + 8); auto hb = base64(head); uint32_t n; CHECK(hb.size() >= 4, "header in %s", file.c_str()); memcpy(&n, hb.data(), 4); auto d = base64(rest); CHECK(d.size() == n, "%s: %zu bytes of %s, announced %u", file.c_str(), d.size(), name.c_str(), n);
         if (type == "Float64") for (size_t i = 0; i + 8 <= d.size(); i += 8) { double v; memcpy(&v, &d[i], 8); a.x.push_back(v); } else for (size_t i = 0; i + 4 <= d.size(); i += 4) { float v; memcpy(&v, &d[i], 4); a.x.push_back(v); }
      }
      out[name.empty() ? "Points" : name] = a;
   }
   return out;
}
#endif
