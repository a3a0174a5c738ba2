#include "xmlmini.hpp"

#include <cstdlib>
#include <cstring>

namespace sim::xml {

Node const* Node::child(std::string const& n) const {
	for(auto const& c : children) if(c.name == n) return &c;
	return nullptr;
}
std::string const* Node::attr(std::string const& n) const {
	for(auto const& [k, v] : attrs) if(k == n) return &v;
	return nullptr;
}

namespace {
bool space(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }

std::string unescape(std::string const& s) {
	std::string o;
	for(std::size_t i = 0; i < s.size(); ++i) {
		if(s[i] != '&') { o += s[i]; continue; }
		auto const e = s.find(';', i);
		if(e == std::string::npos) { o += s[i]; continue; }
		std::string const n = s.substr(i + 1, e - i - 1);
		if(n == "lt") o += '<';
		else if(n == "gt") o += '>';
		else if(n == "amp") o += '&';
		else if(n == "quot") o += '"';
		else if(n == "apos") o += '\'';
		else if(!n.empty() && n[0] == '#') {
			unsigned long const c = n.size() > 1 && n[1] == 'x' ? std::strtoul(n.c_str() + 2, nullptr, 16) : std::strtoul(n.c_str() + 1, nullptr, 10);
			if(c < 0x80) o += (char) c;
			else if(c < 0x800) { o += (char) (0xc0 | c >> 6); o += (char) (0x80 | (c & 63)); }
			else { o += (char) (0xe0 | (c >> 12 & 15)); o += (char) (0x80 | (c >> 6 & 63)); o += (char) (0x80 | (c & 63)); }
		}
		else { o += s[i]; continue; }
		i = e;
	}
	return o;
}
std::string trim(std::string const& s) {
	std::size_t a = 0, b = s.size();
	while(a < b && space(s[a])) ++a;
	while(b > a && space(s[b - 1])) --b;
	return s.substr(a, b - a);
}
} // namespace

Doc parse(std::string const& s) {
	Doc d;
	Node root;
	std::vector<Node*> open { &root };
	std::size_t i = 0;
	std::string pending; // Text not yet ended by a tag: comments do not interrupt it.
	auto bad = [&](char const* what) { d.error = what; d.tops = root.children; return d; };
	while(i < s.size()) {
		if(s[i] != '<') {
			auto e = s.find('<', i);
			if(e == std::string::npos) e = s.size();
			std::string const t = unescape(s.substr(i, e - i));
			if(open.size() > 1) pending += t;
			else if(!trim(t).empty()) return bad("text outside of any element");
			i = e;
			continue;
		}
		if(s.compare(i, 4, "<!--") == 0) {
			auto e = s.find("-->", i);
			if(e == std::string::npos) return bad("unfinished comment");
			i = e + 3;
			continue;
		}
		if(open.size() > 1) open.back()->text += trim(pending);
		pending.clear();
		if(s.compare(i, 9, "<![CDATA[") == 0) {
			auto e = s.find("]]>", i);
			if(e == std::string::npos) return bad("unfinished character data");
			open.back()->text += s.substr(i + 9, e - i - 9);
			i = e + 3;
			continue;
		}
		if(s.compare(i, 2, "<?") == 0 || s.compare(i, 2, "<!") == 0) {
			auto e = s.find('>', i);
			if(e == std::string::npos) return bad("unfinished declaration");
			i = e + 1;
			continue;
		}
		if(s.compare(i, 2, "</") == 0) {
			auto e = s.find('>', i);
			if(e == std::string::npos) return bad("unfinished end tag");
			if(open.size() == 1 || open.back()->name != trim(s.substr(i + 2, e - i - 2))) return bad("mismatched end tag");
			open.pop_back();
			i = e + 1;
			continue;
		}
		// Start tag.
		std::size_t j = i + 1;
		while(j < s.size() && !space(s[j]) && s[j] != '>' && s[j] != '/') ++j;
		Node n;
		n.name = s.substr(i + 1, j - i - 1);
		if(n.name.empty()) return bad("nameless tag");
		bool empty = false;
		for(;;) {
			while(j < s.size() && space(s[j])) ++j;
			if(j >= s.size()) return bad("unfinished tag");
			if(s[j] == '>') { ++j; break; }
			if(s[j] == '/') {
				if(j + 1 >= s.size() || s[j + 1] != '>') return bad("bad tag");
				empty = true;
				j += 2;
				break;
			}
			std::size_t k = j;
			while(k < s.size() && s[k] != '=' && !space(s[k]) && s[k] != '>') ++k;
			std::string const name = s.substr(j, k - j);
			while(k < s.size() && space(s[k])) ++k;
			if(k >= s.size() || s[k] != '=') return bad("bad attribute");
			++k;
			while(k < s.size() && space(s[k])) ++k;
			if(k >= s.size() || (s[k] != '"' && s[k] != '\'')) return bad("bad attribute value");
			auto e = s.find(s[k], k + 1);
			if(e == std::string::npos) return bad("unfinished attribute");
			n.attrs.emplace_back(name, unescape(s.substr(k + 1, e - k - 1)));
			j = e + 1;
		}
		open.back()->children.push_back(n);
		// Only the innermost open node's children vector grows: the pointers stay valid.
		if(!empty) open.push_back(&open.back()->children.back());
		i = j;
	}
	if(open.size() > 1) return bad("unclosed element");
	if(root.children.empty()) return bad("no element");
	d.complete = true;
	d.tops = root.children;
	return d;
}

std::string canonical(Node const& n, int depth) {
	std::string const pad((std::size_t) depth, ' ');
	std::string o = pad + n.name;
	for(auto const& [k, v] : n.attrs) o += " " + k + "=\"" + v + "\"";
	o += " : " + n.text + "\n";
	for(auto const& c : n.children) o += canonical(c, depth + 1);
	return o;
}

} // namespace sim::xml
