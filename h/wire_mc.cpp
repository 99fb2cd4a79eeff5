// C13: encode and decode of every object; C14: damaged encodings (built with address and undefined-behaviour checking).
#include "wire.h"
#include <new>
using namespace wire;
// ---------- allocation meter ----------
static thread_local bool g_meter = false; static thread_local size_t g_total = 0, g_max = 0, g_limit = 1ull << 28;
static void* alloc(size_t n) { if (g_meter) { g_total += n; if (n > g_max) g_max = n; } if (n > g_limit) throw std::bad_alloc(); void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return alloc(n); }
void* operator new[](size_t n) { return alloc(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

static std::string shown(const B& b) { return b.size() > 60 ? vh::hexv(b.substr(0, 60)) + "..." : vh::hexv(b); }
static void roundtrip(const Sample& s)
{
	B e = s.encode(); vh::S().transitions++; vh::S().states++;
	if (e != s.bytes) { size_t i = 0; while (i < e.size() && i < s.bytes.size() && e[i] == s.bytes[i]) i++; return vh::fail("encoding:" + s.type, vh::cat(s.type, " ", s.name, ": the encoding differs from the protocol's at byte ", i, " of ", s.bytes.size(), " (got ", e.size(), ")")); }
	size_t rest = 0; std::string sig; B again;
	try { again = s.codec(s.bytes + B("\x01\x02\x03", 3), rest, sig); } catch (std::exception& x) { return vh::fail("decode:" + s.type, vh::cat(s.type, " ", s.name, ": a valid encoding is refused: ", x.what())); }
	vh::check(rest == 3, "consumed:" + s.type, vh::cat(s.type, " ", s.name, ": decoding consumed ", (long)s.bytes.size() + 3 - (long)rest, " bytes of ", s.bytes.size()));
	vh::check(sig == s.sig, "value:" + s.type, vh::cat(s.type, " ", s.name, ": the decoded value differs: ", sig.substr(0, 400), " instead of ", s.sig.substr(0, 400)));
	vh::check(again == s.bytes, "again:" + s.type, vh::cat(s.type, " ", s.name, ": encoding the decoded value gives other bytes"));
	size_t step = s.bytes.size() > 2000 && !vh::thorough() ? 7 : 1;
	for (size_t n = 0; n < s.bytes.size(); n += step) { // a shorter encoding is refused
		vh::S().transitions++;
		try { s.codec(s.bytes.substr(0, n), rest, sig); vh::fail("short:" + s.type, vh::cat(s.type, " ", s.name, ": accepted although only ", n, " of ", s.bytes.size(), " bytes are there")); break; } catch (std::exception&) {}
	}
	vh::outcome(s.type);
}
// what decodes must be written the same way again: two encodings never stand for one object
static void canonical(const Sample& s)
{
	for (size_t i = s.type == "SpentOutputs"; i < s.bytes.size(); i++) for (int bit = 0; bit < 8; bit++) { // (that record begins with a version, always 0)
		B m = s.bytes; m[i] = (char)(m[i] ^ (1 << bit)); size_t rest = 0; std::string sig, sig2; B e; vh::S().transitions++;
		try { e = s.codec(m, rest, sig); } catch (std::exception&) { continue; }
		vh::S().states++;
		if (rest) continue;
		if (e == m) { if (sig == s.sig && s.type != "TxHashSetRequestMessage") vh::fail("same-value:" + s.type, vh::cat(s.type, " ", s.name, ": bit ", bit, " of byte ", i, " makes no difference to the value")); continue; }
		B a = e, b = m; if (!s.ordered) { std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); if (a == b) continue; }
		return vh::fail("canonical:" + s.type, vh::cat(s.type, " ", s.name, ": with bit ", bit, " of byte ", i, " of ", m.size(), " flipped it is accepted, but encodes to other bytes (", shown(e.substr(i > 4 ? i - 4 : 0, 12)), " instead of ", shown(m.substr(i > 4 ? i - 4 : 0, 12)), ")"));
	}
	vh::outcome("canonical:" + s.type);
}
static void versionless()
{
	std::map<std::string, std::pair<std::string, std::string>> by;
	for (auto& s : all()) { if (s.type.find("Message") != std::string::npos || s.name.compare(0, 1, "v")) continue; std::string n = s.type + s.name.substr(s.name.find('/')); size_t rest; std::string sig; try { s.codec(s.bytes, rest, sig); } catch (std::exception&) { continue; } auto it = by.insert({ n, { s.name, sig } }).first; vh::check(it->second.second == sig, "version:" + s.type, vh::cat(s.type, " ", s.name, " and ", it->second.first, " decode to different values")); }
}
static void features()
{
	for (EV v : versions()) for (int f = 0; f < 256; f++) {
		K k = mk(0); I in = mi(1); O o = mo(0); B ke = k.enc(v); ke[0] = (char)f; if (v == EV::V1 && f == 3) ke.replace(9, 8, be(5, 8)); if (v != EV::V1 && f == 1) ke.erase(1, 8); if (v != EV::V1 && f == 2) ke.insert(9, be(5, 8)); if (v != EV::V1 && f == 3) ke.insert(9, be(5, 2)); if (v == EV::V1 && f == 1) ke.replace(1, 8, B(8, '\0'));
		auto ok = [&](auto fn) { try { fn(); return true; } catch (std::exception&) { return false; } }; vh::S().transitions += 4; vh::S().states++;
		vh::check(ok([&] { ByteBuffer b(vec(ke), v); TransactionKernel::Deserialize(b); }) == (f < 4), "features:Kernel", vh::cat(vn(v), ": a kernel with features ", f, f < 4 ? " is refused" : " is accepted"));
		if (v < EV::V3) vh::check(ok([&] { B e = in.enc(v); e[0] = (char)f; ByteBuffer b(vec(e), v); TransactionInput::Deserialize(b); }) == (f < 2), "features:Input", vh::cat(vn(v), ": an input with features ", f, f < 2 ? " is refused" : " is accepted"));
		vh::check(ok([&] { B e = o.enc(v); e[0] = (char)f; ByteBuffer b(vec(e), v); TransactionOutput::Deserialize(b); }) == (f < 2), "features:Output", vh::cat(vn(v), ": an output with features ", f, f < 2 ? " is refused" : " is accepted"));
		vh::check(ok([&] { B e = o.enc(v).substr(0, 34); e[0] = (char)f; ByteBuffer b(vec(e), v); OutputIdentifier::Deserialize(b); }) == (f < 2), "features:OutputIdentifier", vh::cat(vn(v), ": an output identifier with features ", f, f < 2 ? " is refused" : " is accepted"));
	}
	// a kernel in its long form: the fields its features do not have must be zero
	for (int f = 0; f < 4; f++) for (uint64_t fee : { 0, 1 }) for (uint64_t lock : { 0ull, 1ull, 10080ull, 10081ull, ~0ull }) {
		K k = mk(0); k.f = f; k.fee = fee; k.shift = 0; k.lock = lock; bool good = f == 0 ? !lock : f == 1 ? !fee && !lock : f == 2 ? true : lock && lock <= 10080, got = true; vh::S().transitions++;
		try { ByteBuffer b(vec(k.v1()), EV::V1); TransactionKernel::Deserialize(b); } catch (std::exception&) { got = false; }
		vh::check(good == got, "unused:Kernel", vh::cat("a kernel with features ", f, ", fee ", fee, ", lock height ", lock, got ? " is accepted" : " is refused"));
	}
}
static void feed(const Sample& s, const B& m, const std::string& what)
{
	size_t rest = 0; std::string sig; vh::S().transitions++;
	size_t lim = (8 << 20) + 64 * m.size();
	bool ok = false, other = false; std::string why;
	{ B in = m; g_limit = lim; g_total = g_max = 0; g_meter = true;
	try { s.codec(in, rest, sig); ok = true; } catch (std::bad_alloc&) { why = "bad_alloc"; } catch (std::length_error& x) { why = std::string("length_error ") + x.what(); other = true; } catch (std::exception&) {} catch (...) { why = "something that is no exception"; other = true; }
	g_meter = false; g_limit = 1ull << 28; }
	if (ok) vh::S().states++;
	if (g_max > lim || g_total > 4 * lim) vh::fail("alloc:" + s.type, vh::cat(s.type, " ", s.name, ": ", what, ": decoding ", m.size(), " bytes allocates ", g_max, " bytes at once, ", g_total, " in total"));
	else if (other) vh::fail("length:" + s.type, vh::cat(s.type, " ", s.name, ": ", what, ": decoding ", m.size(), " bytes asks for an impossible size: ", why));
}
static const size_t CH = 150;
static void damage(const Sample& s, size_t from)
{
	const B& b = s.bytes; size_t to = std::min(from + CH, b.size() + 1);
	for (size_t n = from; n < to; n++) feed(s, b.substr(0, n), vh::cat("cut to ", n));
	for (size_t i = from; i < to && i < b.size(); i++) {
		std::vector<int> vals; if (vh::thorough()) for (int x = 0; x < 256; x++) vals.push_back(x); else vals = { 0, 1, 2, 0x7f, 0x80, 0xff, (uint8_t)b[i] ^ 1, (uint8_t)b[i] ^ 0x80 };
		for (int x : vals) { B m = b; m[i] = (char)x; feed(s, m, vh::cat("byte ", i, " = ", x)); }
	}
	for (int w : { 2, 4, 8 }) for (size_t i = from; i < to && i + w <= b.size(); i++) {
		uint64_t big = w == 8 ? ~0ull : (1ull << (8 * w)) - 1;
		std::vector<uint64_t> vs{ big, big / 2, big / 2 + 1, big - i, big - i - 8 };
		if (w == 8) { vs.push_back(1ull << 61); vs.push_back((1ull << 60) + 1); vs.push_back(1ull << 32); vs.push_back((1ull << 31)); vs.push_back(b.size()); vs.push_back(b.size() * 8); vs.push_back(1ull << 40); vs.push_back(b.size() - i); vs.push_back(0 - (i + 8)); vs.push_back(0 - (i + 7)); vs.push_back(0 - (uint64_t)40); }
		for (uint64_t x : vs) { B m = b; m.replace(i, w, be(x, w)); feed(s, m, vh::cat(w, " bytes at ", i, " = ", x)); }
	}
	vh::outcome(s.type);
}
static void tiny(const Sample& s)
{
	// every very short input
	feed(s, "", "nothing");
	for (int a = 0; a < 256; a++) { feed(s, B(1, (char)a), vh::cat("one byte ", a)); for (int n : { 8, 40, 200, 1000 }) feed(s, B(n, (char)a), vh::cat(n, " bytes ", a)); }
}
static void header()
{
	// the header that announces a message: right magic, and no announced length far beyond the largest valid message
	auto& m = Global::GetConfig().GetMagicBytes();
	for (int type = 0; type < 256; type++) for (int mg = 0; mg < 3; mg++) for (uint64_t len : u64s()) {
		B b = be(m[0] ^ (mg == 1), 1) + be(m[1] ^ (mg == 2), 1) + be(type, 1) + be(len, 8); ByteBuffer bb(vec(b)); vh::S().transitions++;
		try { MessageHeader h = MessageHeader::Deserialize(bb); vh::check(mg == 0, "magic", "a message of another network is accepted"); vh::check((int)h.GetMessageType() == type && h.GetLength() == len, "header", "a message header is read wrongly"); vh::check(len <= 4ull * 2 * P2P::MAX_BLOCK_SIZE, "header-length", vh::cat("a message of ", len, " bytes is accepted")); vh::S().states++; } catch (std::exception&) {}
	}
}
int main(int argc, char** argv)
{
	vh::init(argc, argv);
	g_limit = 1ull << 28;
	ch::useDir(vh::freshDir("n"));
	if (vh::S().prop == "C13") {
		build(true);
		std::map<std::string, int> n;
		for (auto& s : all()) { if (vh::begin("rt/" + s.type + "/" + s.name)) roundtrip(s); }
		if (vh::begin("versions")) versionless();
		if (vh::begin("features")) features();
		all().clear(); build(vh::thorough());
		for (auto& s : all()) if (s.bytes.size() < 3000 && (vh::thorough() || s.ver == EV::V1 || s.ver == EV::V1000 || s.type == "Kernel" || s.type == "Input" || s.type == "Transaction") && vh::begin("canon/" + s.type + "/" + s.name)) canonical(s);
	} else {
		build(false);
		for (auto& s : all()) {
			bool big = s.bytes.size() > 600; if (!vh::thorough() && s.ver != EV::V1 && s.ver != EV::V1000) continue; if (!vh::thorough() && big && s.ver != (s.type.size() % 2 ? EV::V1 : EV::V1000)) continue;
			for (size_t f = 0; f <= s.bytes.size(); f += CH) if (vh::begin(vh::cat("damage/", s.type, "/", s.name, "/", f))) damage(s, f);
			if (vh::begin("tiny/" + s.type + "/" + s.name)) tiny(s);
		}
		if (vh::begin("header")) header();
	}
	vh::fini(); fflush(stdout); _exit(0);
}
