// Independent reader of silo files (uses only zlib and its own SHA-256).
#pragma once
#include "util.hpp"
#include <memory>
#include <strings.h>

std::string sha256_hex(const std::string &s);
struct Rec {
	unsigned silo = 0; i64 off = 0, body_off = 0, body_gz = 0, end = 0;
	std::string id;		// as recorded, without prefix
	bool ghost = false;	// placed by the environment, the body is not there
	std::vector<std::pair<std::string, std::string>> hdr; std::string body, bdig;
	const std::string *get(const std::string &n) const { for (auto &h : hdr) if (!strcasecmp(h.first.c_str(), n.c_str())) return &h.second; return nullptr; }
	std::string val(const std::string &n) const { auto p = get(n); return p ? *p : ""; }
	std::string type() const { return val("WARC-Type"); }
};
typedef std::shared_ptr<Rec> RecP;
// Parses records from byte `pos`; stops at the first framing problem (err set).
// Returns the offset after the last good record.
i64 parse_silo(const std::string &d, i64 pos, unsigned silo, const std::string &prefix, std::vector<RecP> &out, std::string &err);
// Value problems of one record ("" when fine): lengths, digests, date, type
std::string check_record(const Rec &r, unsigned idlen);
bool gunzip_all(const std::string &z, std::string &out, int *members = nullptr);
std::string lower(std::string s);
i64 parse_date(const std::string &s);	// seconds, -1 if malformed
