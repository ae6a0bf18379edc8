// The translation unit the analyser parses.  It includes every library header of /repo and instantiates the
// templates through the public interface only.
#include <WebFront.hpp>
#include <http/HTTPServer.hpp>
#include <http/WebSocket.hpp>
#include <networking/BasicNetworking.hpp>
#include <system/BabelFS.hpp>
#include <system/IndexFS.hpp>
#include <system/JasmineFS.hpp>
#include <system/NativeFS.hpp>
#include <system/ReactFS.hpp>
#include <utils/TypeErasedFunction.hpp>
#include <weblink/WebLink.hpp>

namespace wfa {
using namespace webfront;
using Net = networking::TCPNetworkingTS;
// The file system the applications of the repository configure, and one opaque provider.
using AppFS = fs::Multi<fs::NativeDebugFS, fs::IndexFS, fs::ReactFS, fs::BabelFS, fs::JasmineFS>;
struct OpaqueFS {
    OpaqueFS(std::filesystem::path);
    std::optional<fs::File> open(std::filesystem::path);
};
using WF = BasicWF<Net, AppFS>;
using App = BasicWF<Net, OpaqueFS>;
} // namespace wfa

template class webfront::http::Server<wfa::Net, wfa::OpaqueFS>;
template class webfront::http::RequestHandler<wfa::Net, wfa::OpaqueFS>;
template class webfront::http::Connection<wfa::Net, wfa::OpaqueFS>;
template class webfront::http::Connections<webfront::http::Connection<wfa::Net, wfa::OpaqueFS>>;
template class webfront::http::RequestHandler<wfa::Net, wfa::AppFS>;
template class webfront::http::Server<wfa::Net, wfa::AppFS>;
template class webfront::http::Connection<wfa::Net, wfa::AppFS>;
template class webfront::BasicWF<wfa::Net, wfa::AppFS>;
template class webfront::BasicUI<wfa::WF>;
template class webfront::JsFunction<wfa::WF>;
template struct webfront::websocket::Frame<wfa::Net>;
template class webfront::websocket::WebSocket<wfa::Net>;
template class webfront::WebLink<wfa::Net>;
template class webfront::networking::BasicNetworking<>;

namespace wfa {
using Frame = websocket::Frame<Net>;
// ---- entry points: one call of the public interface each -------------------------------------------------
bool entry_parse(http::Request& r, const char* b, const char* e) { return r.parseSomeData(b, e); }
auto entry_toBuffers(http::Response& r) { return r.toBuffers<Net>(); }
void entry_toBuffers_const(const http::Response& r) { auto b = r.toBuffers<Net>(); (void)b; }

// Every parameter type the bridge transports, JS -> C++ and C++ -> JS.
template<typename T> void decode(std::span<const std::byte>& data) { T t{}; msg::FunctionCall::decodeParameter(t, data); }
template void decode<bool>(std::span<const std::byte>&);
template void decode<int>(std::span<const std::byte>&);
template void decode<size_t>(std::span<const std::byte>&);
template void decode<double>(std::span<const std::byte>&);
template void decode<std::string>(std::span<const std::byte>&);
template void decode<std::tuple<double, std::string>>(std::span<const std::byte>&);
template void decode<std::tuple<std::tuple<std::string>, bool>>(std::span<const std::byte>&);

template<typename T> void encode(msg::FunctionCall& c, Frame& f, T& t) { c.encodeParameter(t, f); }
template void encode<bool>(msg::FunctionCall&, Frame&, bool&);
template void encode<int>(msg::FunctionCall&, Frame&, int&);
template void encode<double>(msg::FunctionCall&, Frame&, double&);
template void encode<const char*>(msg::FunctionCall&, Frame&, const char*&);
template void encode<std::string>(msg::FunctionCall&, Frame&, std::string&);
template void encode<std::string_view>(msg::FunctionCall&, Frame&, std::string_view&);
template void encode<const char[6]>(msg::FunctionCall&, Frame&, const char (&)[6]);
template void encode<std::tuple<double, std::string>>(msg::FunctionCall&, Frame&, std::tuple<double, std::string>&);
template void encode<std::tuple<std::tuple<std::string>, bool>>(msg::FunctionCall&, Frame&, std::tuple<std::tuple<std::string>, bool>&);
template void encode<std::runtime_error>(msg::FunctionCall&, Frame&, std::runtime_error&);
template void encode<const std::out_of_range>(msg::FunctionCall&, Frame&, const std::out_of_range&);

const msg::FunctionCall* entry_cast_call(std::span<const std::byte> d) { return msg::FunctionCall::castFromRawData(d); }
const msg::Handshake* entry_cast_handshake(std::span<const std::byte> d) { return msg::Handshake::castFromRawData(d); }
const msg::TextCommand* entry_cast_text(std::span<const std::byte> d) { return msg::TextCommand::castFromRawData(d); }
auto entry_payload_call(const msg::FunctionCall& c) { return c.payload(); }
auto entry_header_call(const msg::FunctionCall& c) { return c.header(); }
auto entry_header_return(const msg::FunctionReturn& c) { return c.header(); }
auto entry_header_ack(const msg::Ack& c) { return c.header(); }
auto entry_payload_ack(const msg::Ack& c) { return c.payload(); }
auto entry_header_text(const msg::TextCommand& c) { return c.header(); }

// The registration interface, for a named and a temporary callable.
struct Callable { void operator()(std::string, double); };
void entry_register_temporary(WF& wf, std::string name) { wf.cppFunction<void, std::string, double>(name, Callable{}); }
void entry_register_named(WF& wf, std::string name, Callable& c) { wf.cppFunction<void, std::string, double>(name, c); }
void entry_register_ret(WF& wf, std::string name, std::string (*f)(bool, std::tuple<double, std::string>)) {
    wf.cppFunction<std::string, bool, std::tuple<double, std::string>>(name, f);
}
#ifndef NO_REGISTER
// The forms in which an application hands a function over; every function reports its number and what it was called with.
using Told = std::function<void(int, std::string_view, std::string_view, double, double, bool)>;
struct TextNumber { int id; Told told; void operator()(std::string s, double d) const { told(id, s, "", d, 0, false); } };
struct Growing { int id; Told told; void operator()(std::string s, double d) { told(id, s, "", d, 0, false); } };
void entry_reg_temporary(WF& wf, std::string name, int id, Told told) { wf.cppFunction<void, std::string, double>(name, TextNumber{id, told}); }
void entry_reg_local(WF& wf, std::string name, int id, Told told) {
    TextNumber f{id, told};
    wf.cppFunction<void, std::string, double>(name, f);
}
void entry_reg_const(WF& wf, std::string name, int id, Told told) {
    const TextNumber f{id, told};
    wf.cppFunction<void, std::string, double>(name, f);
}
void entry_reg_moved(WF& wf, std::string name, int id, Told told) {
    Growing f{id, told};
    wf.cppFunction<void, std::string, double>(std::move(name), std::move(f));
}
void entry_reg_lambda(WF& wf, std::string name, int id, Told told) {
    wf.cppFunction<void, std::string, double>(name, [id, told](std::string s, double d) { told(id, s, "", d, 0, false); });
}
void entry_reg_function(WF& wf, std::string name, int id, Told told) {
    std::function<void(std::string, double)> f = [id, told](std::string s, double d) { told(id, s, "", d, 0, false); };
    wf.cppFunction<void, std::string, double>(name, f);
}
void entry_reg_none(WF& wf, std::string name, int id, Told told) { wf.cppFunction<void>(name, [id, told] { told(id, "", "", 0, 0, false); }); }
void entry_reg_result(WF& wf, std::string name, int id, Told told) {
    wf.cppFunction<int, std::string, std::string>(name, [id, told](std::string a, std::string b) { told(id, a, b, 0, 0, false); return 1; });
}
void entry_reg_numbers(WF& wf, std::string name, int id, Told told) {
    wf.cppFunction<void, double, double>(name, [id, told](double a, double b) { told(id, "", "", a, b, false); });
}
void entry_reg_nested(WF& wf, std::string name, int id, Told told) {
    wf.cppFunction<void, bool, std::tuple<double, std::string>, std::string>(
      name, [id, told](bool b, std::tuple<double, std::string> t, std::string s) { told(id, std::get<1>(t), s, std::get<0>(t), 0, b); });
}
#endif
void entry_js_call(JsFunction<WF>& f, std::string& s, double d, bool b) { f(s, d, b, "text"); }
void entry_js_call_none(JsFunction<WF>& f) { f(); }

#ifndef NO_MULTI
struct Part1 { Part1(std::filesystem::path); std::optional<fs::File> open(std::filesystem::path); };
struct Part2 { Part2(std::filesystem::path); std::optional<fs::File> open(std::filesystem::path); };
struct Part3 { Part3(std::filesystem::path); std::optional<fs::File> open(std::filesystem::path); };
std::optional<fs::File> entry_multi(std::filesystem::path root, std::filesystem::path p) {
    fs::Multi<Part1, Part2, Part3> m(root);
    return m.open(p);
}
#endif

#ifndef NO_READS
void entry_reads(std::span<const uint64_t> w, size_t n, std::span<char> a, std::span<char> b, std::span<char> c, std::array<size_t, 3>& r) {
    fs::File f(w, n, "br");
    r[0] = f.read(a);
    r[1] = f.read(b);
    r[2] = f.read(c);
}
void entry_read_stream(std::ifstream s, std::span<char> a, std::span<char> b, std::array<size_t, 2>& r) {
    fs::File f(std::move(s));
    r[0] = f.read(a);
    r[1] = f.read(b);
}
#endif

std::string entry_b64_string(std::string s) { return base64::encode(s); }
std::string entry_b64_net(std::array<uint32_t, 5> a) { return base64::encodeInNetworkOrder(a); }
std::string entry_sha1String(std::string_view s) { return crypto::sha1String(s); }
std::string entry_hexdump(std::span<const std::byte> s) { return utils::hexDump(s); }
std::string entry_hexdump2(std::span<const uint8_t> a, std::span<const uint8_t> b) { return utils::hexDump(a, b); }
void entry_logs(std::string_view t, int i) {
    log::debug("wfa {}", i); log::info("wfa {}", i); log::warn("wfa {}", i); log::error("wfa {}", i);
    log::debug("wfa"); log::info("wfa"); log::warn("wfa"); log::error("wfa");
    log::infoHex("wfa", t);
}
#ifndef NO_HEADERS
using WsHeader = websocket::Header;
struct HeaderFields { bool fin, masked; uint8_t opcode; std::array<std::byte, 4> key; size_t headerSize; uint64_t payloadSize, frameSize; bool complete; };
static HeaderFields fields_of(const WsHeader& h, size_t have) {
    return {h.FIN(), h.MASK(), static_cast<uint8_t>(h.opcode()), h.maskingKey(), h.headerSize(), h.payloadSize(), h.getFrameSize(), h.isComplete(have)};
}
HeaderFields entry_hdr_read(const WsHeader& h, size_t have) { return fields_of(h, have); }
WsHeader entry_hdr_write(bool fin, uint8_t op, size_t size) {
    WsHeader h;
    h.setFIN(fin);
    h.setOpcode(static_cast<WsHeader::Opcode>(op));
    h.setPayloadSize(size);
    return h;
}
WsHeader entry_hdr_rewrite(bool fin, uint8_t op, uint8_t op2, size_t size, size_t size2) {
    WsHeader h;
    h.setOpcode(static_cast<WsHeader::Opcode>(op));
    h.setPayloadSize(size);
    h.setFIN(!fin);
    h.setFIN(fin);
    h.setPayloadSize(size2);
    h.setOpcode(static_cast<WsHeader::Opcode>(op2));
    return h;
}
HeaderFields entry_hdr_round(bool fin, uint8_t op, size_t size, size_t have) { return fields_of(entry_hdr_write(fin, op, size), have); }
void entry_frame_text(Net::Socket& s, std::string_view t) { Frame f(t); Net::Write(s, f.toBuffers()); }
void entry_frame_data(Net::Socket& s, std::span<const std::byte> d) { Frame f(d); Net::Write(s, f.toBuffers()); }
void entry_frame_data2(Net::Socket& s, std::span<const std::byte> d, std::span<const std::byte> e) { Frame f(d, e); Net::Write(s, f.toBuffers()); }
void entry_frame_add(Net::Socket& s, std::span<const std::byte> d, std::span<const std::byte> e) { Frame f(d); f.addBuffer(e); Net::Write(s, f.toBuffers()); }
void entry_frame_add2(Net::Socket& s, std::span<const std::byte> d, std::span<const std::byte> e, std::span<const std::byte> g) { Frame f(d); f.addBuffer(e); f.addBuffer(g); Net::Write(s, f.toBuffers()); }
void entry_frame_moved(Net::Socket& s, std::span<const std::byte> d, std::span<const std::byte> e) { Frame f(d); f.addBuffer(e); Frame g(std::move(f)); Net::Write(s, g.toBuffers()); }
void entry_ws_text(websocket::WebSocket<Net>& ws, std::string_view t) { ws.write(t); }
void entry_ws_data(websocket::WebSocket<Net>& ws, std::span<const std::byte> d) { ws.write(d); }
void entry_ws_data2(websocket::WebSocket<Net>& ws, std::span<const std::byte> d, std::span<const std::byte> e) { ws.write(d, e); }
void entry_ws_frame(websocket::WebSocket<Net>& ws, std::span<const std::byte> d, std::span<const std::byte> e) { Frame f(d); f.addBuffer(e); ws.write(std::move(f)); }
#endif

#ifndef NO_DECODER
struct Decoded { size_t at; size_t excess; uint8_t type; std::vector<std::byte> payload; };
static Decoded decoded(const websocket::FrameDecoder& d, size_t at) {
    return {at, d.excessSize(), static_cast<uint8_t>(d.frameType), std::vector<std::byte>(d.payload().begin(), d.payload().end())};
}
// the number of the chunk which completes the frame (0: none does), and the frame
Decoded entry_decode(std::span<const std::byte> a, std::span<const std::byte> b, std::span<const std::byte> c) {
    websocket::FrameDecoder d;
    if (d.parse(a)) return decoded(d, 1);
    if (d.parse(b)) return decoded(d, 2);
    if (d.parse(c)) return decoded(d, 3);
    return {};
}
// one byte at a time
Decoded entry_decode_bytes(std::span<const std::byte> a) {
    websocket::FrameDecoder d;
    for (size_t i = 0; i < a.size(); ++i)
        if (d.parse(a.subspan(i, 1))) return decoded(d, i + 1);
    return {};
}
// the second of two frames, the first one ending within chunk a
Decoded entry_decode_next(std::span<const std::byte> a, std::span<const std::byte> b) {
    websocket::FrameDecoder d;
    if (!d.parse(a)) return {};
    auto rest = a.last(d.excessSize());
    d.reset();
    if (!rest.empty() && d.parse(rest)) return decoded(d, 1);
    if (d.parse(b)) return decoded(d, 2);
    return {};
}
bool entry_decode_any(std::span<const std::byte> a) { websocket::FrameDecoder d; return d.parse(a); }
#endif

#ifndef NO_CODEC
template<typename T> struct Got { T value; size_t left; };
template<typename T> Got<T> got(std::span<const std::byte> d) { T t{}; msg::FunctionCall::decodeParameter(t, d); return {t, d.size()}; }
Got<bool> entry_got_bool(std::span<const std::byte> d) { return got<bool>(d); }
Got<int> entry_got_int(std::span<const std::byte> d) { return got<int>(d); }
Got<uint8_t> entry_got_byte(std::span<const std::byte> d) { return got<uint8_t>(d); }
Got<size_t> entry_got_size(std::span<const std::byte> d) { return got<size_t>(d); }
Got<double> entry_got_double(std::span<const std::byte> d) { return got<double>(d); }
Got<float> entry_got_float(std::span<const std::byte> d) { return got<float>(d); }
Got<std::string> entry_got_string(std::span<const std::byte> d) { return got<std::string>(d); }
Got<std::tuple<double, std::string>> entry_got_pair(std::span<const std::byte> d) { return got<std::tuple<double, std::string>>(d); }
Got<std::tuple<std::tuple<std::string>, bool>> entry_got_inner(std::span<const std::byte> d) { return got<std::tuple<std::tuple<std::string>, bool>>(d); }
Got<std::tuple<bool, std::tuple<std::string, bool>, std::string>> entry_got_nested(std::span<const std::byte> d) {
    return got<std::tuple<bool, std::tuple<std::string, bool>, std::string>>(d);
}
template<typename M, typename... Ts> void sent(Net::Socket& s, Ts&&... ts) {
    M c;
    Frame f{c.header()};
    (c.encodeParameter(std::forward<Ts>(ts), f), ...);
    Net::Write(s, f.toBuffers());
}
using Call = msg::FunctionCall;
using Ret = msg::FunctionReturn;
void entry_sent_none(Net::Socket& s) { sent<Call>(s); }
void entry_sent_bool(Net::Socket& s, bool b) { sent<Call>(s, b); }
void entry_sent_int(Net::Socket& s, int i) { sent<Call>(s, i); }
void entry_sent_size(Net::Socket& s, size_t i) { sent<Call>(s, i); }
void entry_sent_double(Net::Socket& s, double d) { sent<Call>(s, d); }
void entry_sent_float(Net::Socket& s, float d) { sent<Call>(s, d); }
void entry_sent_string(Net::Socket& s, std::string t) { sent<Call>(s, t); }
void entry_sent_view(Net::Socket& s, std::string_view t) { sent<Call>(s, t); }
void entry_sent_cstr(Net::Socket& s, const char* t) { sent<Call>(s, t); }
void entry_sent_array(Net::Socket& s) { sent<Call>(s, "hello"); }
void entry_sent_exception(Net::Socket& s, std::runtime_error& e) { sent<Ret>(s, e); }
void entry_sent_pair(Net::Socket& s, std::tuple<double, std::string> t) { sent<Call>(s, t); }
void entry_sent_nested(Net::Socket& s, std::tuple<bool, std::tuple<std::string, bool>, std::string> t) { sent<Call>(s, t); }
void entry_sent_call(Net::Socket& s, std::string name, double d, std::string t, bool b) { sent<Call>(s, name, d, t, b, "x"); }
void entry_sent_return(Net::Socket& s, std::string name, std::string t) { sent<Ret>(s, name, t); }
void entry_sent_two(Net::Socket& s, std::string a, std::string b) { sent<Call>(s, a, b); }
#endif

#ifndef NO_JS
using Ui = WF::UI;
void entry_js_none(Ui& u, std::string_view n) { u.jsFunction(n)(); }
void entry_js_one(Ui& u, std::string_view n, std::string t) { u.jsFunction(n)(t); }
void entry_js_mixed(Ui& u, std::string_view n, double d, std::string_view t, bool b, int i) { u.jsFunction(n)(d, t, b, i, "lit"); }
void entry_js_tuple(Ui& u, std::string_view n, std::tuple<double, std::string> t, std::string s) { u.jsFunction(n)(t, s); }
void entry_js_twice(Ui& u, std::string_view n, std::string t, double d) { auto f = u.jsFunction(n); f(t); f(d); }
// one more parameter, in any state of the message
struct Step { size_t count; size_t counted; size_t size; size_t sized; };
template<typename T> Step step(Net::Socket& s, uint8_t count, uint32_t size, T& t) {
    msg::FunctionCall c;
    c.setParametersCount(count);
    c.setPayloadSize(size);
    Step r{c.getParametersCount(), 0, c.getPayloadSize(), 0};
    Frame f{c.header()};
    c.encodeParameter(t, f);
    r.counted = c.getParametersCount();
    r.sized = c.getPayloadSize();
    Net::Write(s, f.toBuffers());
    return r;
}
Step entry_step_bool(Net::Socket& s, uint8_t count, uint32_t size, bool b) { return step(s, count, size, b); }
Step entry_step_int(Net::Socket& s, uint8_t count, uint32_t size, int i) { return step(s, count, size, i); }
Step entry_step_double(Net::Socket& s, uint8_t count, uint32_t size, double d) { return step(s, count, size, d); }
Step entry_step_string(Net::Socket& s, uint8_t count, uint32_t size, std::string t) { return step(s, count, size, t); }
Step entry_step_view(Net::Socket& s, uint8_t count, uint32_t size, std::string_view t) { return step(s, count, size, t); }
Step entry_step_exception(Net::Socket& s, uint8_t count, uint32_t size, std::runtime_error& e) { return step(s, count, size, e); }
Step entry_step_pair(Net::Socket& s, uint8_t count, uint32_t size, std::tuple<double, std::string> t) { return step(s, count, size, t); }
template<size_t... I, typename T> void many(Net::Socket& s, T t, std::index_sequence<I...>) { sent<Call>(s, (I, t)...); }
void entry_sent_bools255(Net::Socket& s) { many(s, true, std::make_index_sequence<255>()); }
void entry_sent_bools256(Net::Socket& s) { many(s, true, std::make_index_sequence<256>()); }
void entry_sent_numbers113(Net::Socket& s, double d) { many(s, d, std::make_index_sequence<113>()); }
void entry_sent_numbers120(Net::Socket& s, double d) { many(s, d, std::make_index_sequence<120>()); }
void entry_script(WF::UI& ui, std::string_view t) { ui.addScript(t); }
#endif

#ifndef NO_BUFFERS
using BN = networking::BasicNetworking<>;
using View = std::pair<const void*, size_t>;
static View view_of(BN::ConstBuffer b) { return {b.data(), b.size()}; }
#define WFA_BUF(name, ...) \
    View entry_buf_##name(std::type_identity_t<__VA_ARGS__>& d) { return view_of(BN::Buffer(d)); } \
    View entry_bufn_##name(std::type_identity_t<__VA_ARGS__>& d, size_t count) { return view_of(BN::Buffer(d, count)); } \
    bool entry_bufw_##name(std::type_identity_t<__VA_ARGS__>& d) { (void)d; return std::is_same_v<decltype(BN::Buffer(d)), BN::MutableBuffer> || std::is_same_v<decltype(BN::Buffer(d, 1)), BN::MutableBuffer>; }
WFA_BUF(m_carr8, char[7])
WFA_BUF(m_carr32, uint32_t[5])
WFA_BUF(c_carr8, const char[7])
WFA_BUF(c_carr32, const uint32_t[5])
WFA_BUF(m_arr8, std::array<std::byte, 6>)
WFA_BUF(m_arr32, std::array<uint32_t, 3>)
WFA_BUF(c_arr16, std::array<const uint16_t, 4>)
WFA_BUF(m_vec8, std::vector<uint8_t>)
WFA_BUF(m_vec32, std::vector<uint32_t>)
WFA_BUF(c_vec8, const std::vector<std::byte>)
WFA_BUF(c_vec64, const std::vector<uint64_t>)
WFA_BUF(m_str, std::string)
WFA_BUF(c_str, const std::string)
WFA_BUF(m_str16, std::u16string)
WFA_BUF(c_str32, const std::u32string)
WFA_BUF(c_sv, std::string_view)
WFA_BUF(c_sv16, const std::u16string_view)
View entry_buf_ptr_m(void* d, size_t n) { return view_of(BN::Buffer(d, n)); }
View entry_buf_ptr_c(const void* d, size_t n) { return view_of(BN::Buffer(d, n)); }
View entry_buf_same_m(void* d, size_t n) { BN::MutableBuffer b(d, n); return view_of(BN::Buffer(b)); }
View entry_buf_same_c(const void* d, size_t n) { BN::ConstBuffer b(d, n); return view_of(BN::Buffer(b)); }
View entry_buf_cut_m(void* d, size_t n, size_t count) { BN::MutableBuffer b(d, n); return view_of(BN::Buffer(b, count)); }
View entry_buf_cut_c(const void* d, size_t n, size_t count) { BN::ConstBuffer b(d, n); return view_of(BN::Buffer(b, count)); }
View entry_buf_step_m(void* d, size_t n, size_t k) { BN::MutableBuffer b(d, n); b += k; return {b.data(), b.size()}; }
View entry_buf_step_c(const void* d, size_t n, size_t k) { BN::ConstBuffer b(d, n); b += k; return {b.data(), b.size()}; }
View entry_buf_step2_c(const void* d, size_t n, size_t k, size_t l) { BN::ConstBuffer b(d, n); b += k; b += l; return {b.data(), b.size()}; }
View entry_buf_step2_m(void* d, size_t n, size_t k, size_t l) { BN::MutableBuffer b(d, n); b += k; b += l; return {b.data(), b.size()}; }
View entry_buf_none_m() { BN::MutableBuffer b; return {b.data(), b.size()}; }
View entry_buf_none_c() { BN::ConstBuffer b; return {b.data(), b.size()}; }
#endif

#ifndef NO_SINKS
using Line = std::function<void(int, std::string_view)>;
size_t entry_sink_add(int id, Line told) { return log::addSinks([id, told](std::string_view t) { told(id, t); }); }
size_t entry_sink_named(int id, Line told) {
    std::function<void(std::string_view)> f = [id, told](std::string_view t) { told(id, t); };
    return log::addSinks(f);
}
void entry_sink_remove(size_t id) { log::removeSinks(id); }
void entry_sink_remove2(size_t a, size_t b) { log::removeSinks(a, b); }
void entry_sink_emit() {
    log::setLogLevel(log::Error);
    log::error("wfa");
}
#endif

#ifndef NO_LOGGING
void sink_a(std::string_view);
void sink_b(std::string_view);
void entry_log_debug(uint8_t level, std::string_view t) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::debug("wfa {} {}", t, 7); }
void entry_log_info(uint8_t level, std::string_view t) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::info("wfa {} {}", t, 7); }
void entry_log_warn(uint8_t level, std::string_view t) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::warn("wfa {} {}", t, 7); }
void entry_log_error(uint8_t level, std::string_view t) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::error("wfa {} {}", t, 7); }
void entry_log_debug0(uint8_t level) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::debug("wfa"); }
void entry_log_info0(uint8_t level) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::info("wfa"); }
void entry_log_warn0(uint8_t level) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::warn("wfa"); }
void entry_log_error0(uint8_t level) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::error("wfa"); }
void entry_log_hex(uint8_t level, std::string_view t) { log::addSinks(sink_a, sink_b); log::setLogLevel(level); log::infoHex("wfa", t); }
void entry_log_switch(uint8_t before, uint8_t level) { log::addSinks(sink_a, sink_b); log::setLogLevel(before); log::setLogLevel(level); log::info("wfa"); }
void entry_sinks_removed(uint8_t level) {
    auto a = log::addSinks(sink_a);
    auto b = log::addSinks(sink_b);
    log::removeSinks(a);
    log::setLogLevel(level);
    log::error("wfa");
    (void)b;
}
void entry_sinks_ordered(uint8_t level) {
    auto a = log::addSinks(sink_a);
    auto b = log::addSinks(sink_b);
    log::removeSinks(a);
    log::removeSinks(b);
    log::setLogLevel(level);
    log::error("wfa");
}
void entry_sinks_pair(uint8_t level) {
    auto a = log::addSinks(sink_a);
    auto b = log::addSinks(sink_b);
    log::removeSinks(a, b);
    log::setLogLevel(level);
    log::error("wfa");
}
void entry_sinks_last(uint8_t level) {
    auto a = log::addSinks(sink_a);
    auto b = log::addSinks(sink_b);
    log::removeSinks(b);
    log::setLogLevel(level);
    log::error("wfa");
    (void)a;
}
void entry_sinks_readded(uint8_t level) {
    auto a = log::addSinks(sink_a);
    auto b = log::addSinks(sink_b);
    log::removeSinks(b);
    auto c = log::addSinks(sink_b);
    log::removeSinks(a);
    log::setLogLevel(level);
    log::error("wfa");
    (void)c;
}
#endif

size_t entry_add_sink(std::function<void(std::string_view)> s) { return log::addSinks(s); }
void entry_remove_sink(size_t id) { log::removeSinks(id); }
void entry_set_level(log::LogType l) { log::setLogLevel(l); }
} // namespace wfa

#ifndef NO_SERVE
// one request answered: the handler, then the bytes of its answer
namespace wfa {
bool found(const std::filesystem::path&);
std::span<const uint64_t> words();
size_t words_size();
template<int E> struct Served {
    Served(std::filesystem::path);
    std::optional<fs::File> open(std::filesystem::path p) {
        if (!found(p)) return {};
        return fs::File(words(), words_size(), E == 0 ? "" : E == 1 ? "br" : "gzip");
    }
};
template<int E> using Handler = http::RequestHandler<Net, Served<E>>;
using Method = http::Request::Method;
using Text = std::string_view;
template<typename Handler, typename... Texts> void serve(Handler& h, Net::Socket& s, Method m, const std::string& uri, Texts... texts) {
    http::Request r;
    r.method = m;
    r.uri = uri;
    r.httpVersionMajor = r.httpVersionMinor = 1;
    if constexpr (sizeof...(Texts) > 0) {
        std::string_view t[] = {texts...};
        for (size_t i = 0; i < sizeof...(Texts); i += 2) r.headers.emplace_back(t[i], t[i + 1]);
    }
    auto response = h.handleRequest(r);
    std::experimental::net::write(s, response.template toBuffers<Net>());
}
#define WFA_SERVE(name, E) \
    void entry_##name##0(Handler<E>& h, Net::Socket& s, Method m, const std::string& uri) { serve(h, s, m, uri); } \
    void entry_##name##1(Handler<E>& h, Net::Socket& s, Method m, const std::string& uri, Text n0, Text v0) { serve(h, s, m, uri, n0, v0); } \
    void entry_##name##2(Handler<E>& h, Net::Socket& s, Method m, const std::string& uri, Text n0, Text v0, Text n1, Text v1) { serve(h, s, m, uri, n0, v0, n1, v1); } \
    void entry_##name##3(Handler<E>& h, Net::Socket& s, Method m, const std::string& uri, Text n0, Text v0, Text n1, Text v1, Text n2, Text v2) { \
        serve(h, s, m, uri, n0, v0, n1, v1, n2, v2); \
    } \
    void entry_##name##4(Handler<E>& h, Net::Socket& s, Method m, const std::string& uri, Text n0, Text v0, Text n1, Text v1, Text n2, Text v2, Text n3, Text v3) { \
        serve(h, s, m, uri, n0, v0, n1, v1, n2, v2, n3, v3); \
    }
WFA_SERVE(plain, 0)
WFA_SERVE(br, 1)
WFA_SERVE(gzip, 2)
} // namespace wfa
template class webfront::http::Server<wfa::Net, wfa::Served<0>>;
namespace wfa {
using Code = http::Response::StatusCode;
template<typename... Texts> void respond(Net::Socket& s, Code c, const std::string& content, Texts... texts) {
    http::Response r;
    r.statusCode = c;
    r.content = content;
    if constexpr (sizeof...(Texts) > 0) {
        std::string_view t[] = {texts...};
        for (size_t i = 0; i < sizeof...(Texts); i += 2) r.headers.emplace_back(t[i], t[i + 1]);
    }
    std::experimental::net::write(s, r.template toBuffers<Net>());
}
void entry_respond0(Net::Socket& s, Code c, const std::string& content) { respond(s, c, content); }
void entry_respond1(Net::Socket& s, Code c, const std::string& content, Text n0, Text v0) { respond(s, c, content, n0, v0); }
void entry_respond2(Net::Socket& s, Code c, const std::string& content, Text n0, Text v0, Text n1, Text v1) { respond(s, c, content, n0, v0, n1, v1); }
void entry_respond3(Net::Socket& s, Code c, const std::string& content, Text n0, Text v0, Text n1, Text v1, Text n2, Text v2) {
    respond(s, c, content, n0, v0, n1, v1, n2, v2);
}
void entry_status(Net::Socket& s, Code c) { std::experimental::net::write(s, http::Response::getStatusResponse(c).template toBuffers<Net>()); }
std::string entry_mime(const std::filesystem::path& p) { return std::string(http::MimeType(p.extension().string()).toString()); }
std::string entry_accept(const std::string& key) { return base64::encodeInNetworkOrder(crypto::sha1(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }
} // namespace wfa
#endif
