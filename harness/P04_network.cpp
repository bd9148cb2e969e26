// Contracts of networked processing: server sessions and clients (Boost.Asio, Boost.Beast), command containers.
// vs: link src/common/GCommonHelperFunctions.cpp src/courtier/GCourtierEnums.cpp
// vs: model ^boost::system::(error_code::message|detail::system_error_category::message)(\[abi:cxx11\])?\( => vs_ec_message
// vs: model ^(void|auto|decltype).*boost::asio::ip::basic_resolver<.*::async_resolve<|^boost::asio::ip::basic_resolver<.*::async_resolve< => vs_resolve
// vs: model g_make_unique<boost::asio::basic_stream_socket => vs_no_socket
// vs: entry asio_client_chain native=0
// vs: nlink src/courtier/GCourtierHelperFunctions.cpp src/common/GExceptions.cpp src/common/GLogger.cpp src/common/GThreadGroup.cpp src/common/GThreadPool.cpp src/common/GExpectationChecksT.cpp src/common/GCommonEnums.cpp src/common/GParserBuilder.cpp src/common/GCommonMathHelperFunctions.cpp src/common/GPlotDesigner.cpp
#include <boost/asio.hpp>
#include <boost/beast/core.hpp>
#include <boost/beast/websocket.hpp>
#include <cstring>
#include <new>
#include <stdexcept>
#include <random>
#include <thread>
#include <chrono>
// a pause of a client takes no time in here
static std::int64_t g_ns = 1000000000, g_slept = 0;
template <> inline void std::this_thread::sleep_for<std::int64_t, std::milli>(const std::chrono::duration<std::int64_t, std::milli> &d) { g_slept += d.count(); }
// what is started on a socket is recorded, and completed by the contracts
static int g_sock_writes = 0, g_sock_reads = 0, g_sock_connects = 0; static std::string g_sent; static std::function<void(boost::system::error_code)> g_done;
namespace boost::asio {
template <class H> void async_write(ip::tcp::socket &, mutable_buffer b, H h) { ++g_sock_writes; g_sent.assign(static_cast<const char *>(b.data()), b.size()); g_done = [h](boost::system::error_code ec) mutable { h(ec, 0); }; }
template <class H> void async_write(ip::tcp::socket &, mutable_buffers_1 b, H h) { ++g_sock_writes; g_sent.assign(static_cast<const char *>(b.data()), b.size()); g_done = [h](boost::system::error_code ec) mutable { h(ec, 0); }; }
template <class H> void async_write(ip::tcp::socket &, const_buffer b, H h) { ++g_sock_writes; g_sent.assign(static_cast<const char *>(b.data()), b.size()); g_done = [h](boost::system::error_code ec) mutable { h(ec, 0); }; }
template <class H> void async_write(ip::tcp::socket &, const_buffers_1 b, H h) { ++g_sock_writes; g_sent.assign(static_cast<const char *>(b.data()), b.size()); g_done = [h](boost::system::error_code ec) mutable { h(ec, 0); }; }
template <class B, class H> void async_read(ip::tcp::socket &, B, H h) { ++g_sock_reads; g_done = [h](boost::system::error_code ec) mutable { h(ec, 0); }; }
template <class H> void async_connect(ip::tcp::socket &, ip::tcp::resolver::iterator, ip::tcp::resolver::iterator, H h) { ++g_sock_connects; g_done = [h](boost::system::error_code ec) mutable { h(ec, ip::tcp::resolver::iterator()); }; }
}
#include "courtier/GProcessingContainerT.hpp"
#include "courtier/GCommandContainerT.hpp"
#include "vs.hpp"
using namespace Gem::Courtier;
using Cmd = networked_consumer_payload_command; using Mode = Gem::Common::serializationMode;
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(g_ns += 1000000)); }
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept { return time_point(duration(g_ns += 1000000)); }
extern "C" __attribute__((used)) void vs_ec_message(std::string *r, const void *) { new (static_cast<void *>(r)) std::string("e"); }
enum { OK, THROW_STD, FLAG_ERROR, N_OUT };
static int g_calls = 0;
struct W : GProcessingContainerT<W, double> {
  using B = GProcessingContainerT<W, double>;
  int outcome = OK, calls = 0;
  W() : B(1) {}
  W(const W &) = default;
  void process_() override { ++calls; ++g_calls; registerResult(0, 7.); if (outcome == THROW_STD) throw std::runtime_error("x"); if (outcome == FLAG_ERROR) force_set_error("flagged"); }
};
using P = std::shared_ptr<W>; using Container = GCommandContainerT<W, Cmd>;
// the wire: what the peer has sent, and what was last turned into a message (assumed contract of the serialisation, outside the reach of the verifier)
static bool g_in_garbage = false, g_out_fails = false; static Cmd g_in_cmd = Cmd::NONE; static P g_in_item; static Mode g_mode = Mode::BINARY;
static int g_in = 0, g_out = 0; static Cmd g_out_cmd = Cmd::NONE; static P g_out_item;
namespace Gem::Courtier {
template <> void container_from_string<W, Cmd>(const std::string &s, Container &c, Mode m) {
  ++g_in; vs_assert(m == g_mode, "messages are read in the serialization mode asked for"); c.reset();
  if (g_in_garbage) throw gemfony_exception("garbage");
  vs_assert(s == "in", "the message received is read"); c.reset(g_in_cmd, g_in_item);
}
template <> std::string container_to_string<W, Cmd>(const Container &c, Mode m) {
  ++g_out; vs_assert(m == g_mode, "messages are written in the serialization mode asked for");
  if (g_out_fails) throw gemfony_exception("cannot be serialized");
  g_out_cmd = c.get_command(); g_out_item = c.get_payload(); return "out";
}
}
#include "courtier/GAsioConsumerT.hpp"
#include "courtier/GWebsocketConsumerT.hpp"
using AS = GAsioConsumerSessionT<W>; using AC = GAsioConsumerClientT<W>; using WS = GWebsocketConsumerSessionT<W>; using WC = GWebsocketClientT<W>;
// what leaves through the sockets is recorded instead
static int g_chain = 0, g_written = 0, g_read = 0, g_closed = 0, g_shut = 0; static std::string g_wire;
namespace Gem::Courtier {
template <> void AC::async_start_send_chain() { ++g_chain; g_wire = m_outgoing_message_str; }
template <> void AC::shutdown() { ++g_shut; }
template <> void AS::async_start_write(std::string s) { ++g_written; g_wire = s; }
template <> void WS::async_start_write(std::string s) { ++g_written; g_wire = s; }
template <> void WS::async_start_read() { ++g_read; }
template <> void WS::do_close(boost::beast::websocket::close_code) { ++g_closed; }
template <> void WC::async_start_write(const std::string &s) { ++g_written; g_wire = s; }
}
static VS_NOINLINE Cmd command(const char *n) { std::uint32_t k = vs_u32(n) & 7; vs_assume(k < 6); return Cmd(k); }
static VS_NOINLINE Mode mode() { std::uint32_t k = vs_u32("mode") & 3; vs_assume(k < 3); return Mode(k); }
// whatever earlier messages have left behind
static VS_NOINLINE void arbitrary(Container &c) { Cmd k = command("previous command"); c.reset(k, vs_choice("previous item", 2) ? std::make_shared<W>() : P()); }
// objects without the parts that belong to Boost: storage with only the members placed that the functions under contract use
template <class T> static T *raw() { void *p = ::operator new(sizeof(T) + 64); std::memset(p, 0, sizeof(T)); return static_cast<T *>(p); }
template <class T, class... A> static void place(T &m, A &&...a) { new (static_cast<void *>(&m)) T(std::forward<A>(a)...); }
// the server behind a session: a queue of raw items, and the items put back
struct Server {
  P item[4]; std::size_t n = 0, fetched = 0, asked = 0, put = 0; P back[4]; bool get_throws = false, put_throws = false; bool stop = false; std::size_t asked_at_put = 0;
  P get() { ++asked; if (get_throws) throw gemfony_exception("get"); if (fetched < n) return item[fetched++]; return P(); }
  void take(P p) { asked_at_put = asked; if (put < 4) back[put] = p; ++put; if (put_throws) throw gemfony_exception("put"); }
};
template <class S> static VS_NOINLINE S *session(Server &v, Mode m) {
  S *s = raw<S>();
  place(s->m_get_payload_item, [&v]() -> P { return v.get(); }); place(s->m_put_payload_item, [&v](P p) { v.take(p); }); place(s->m_check_server_stopped, [&v]() -> bool { return v.stop; });
  s->m_serialization_mode = m; place(s->m_command_container, Cmd::NONE); return s;
}
static std::string ask(AS *s) { s->m_incoming_message_str = "in"; std::string r = s->process_request(); return r; }
static std::string ask(WS *s) {
  place(s->m_incoming_buffer); auto b = s->m_incoming_buffer.prepare(2); auto x = *b.begin(); std::memcpy(x.data(), "in", 2); s->m_incoming_buffer.commit(2);
  std::string r = s->process_request(); if (!g_in_garbage) vs_assert(s->m_incoming_buffer.size() == 0, "messages are consumed"); return r;
}
template <class S> static VS_NOINLINE void serve() {
  Server v; v.n = vs_choice("items waiting", 3); for (std::size_t i = 0; i < v.n; ++i) v.item[i] = std::make_shared<W>();
  g_mode = mode(); S *s = session<S>(v, g_mode); arbitrary(s->m_command_container); g_out_fails = false; g_closed = 0;
  g_in_garbage = vs_choice("garbage", 2); Cmd c = command("command"); bool has = vs_choice("with item", 2);
  g_in_cmd = c; g_in_item = has ? std::make_shared<W>() : P(); g_in = g_out = 0; v.asked_at_put = 99;
  std::string r = ask(s);
  bool get = !g_in_garbage & (c == Cmd::GETDATA), res = !g_in_garbage & (c == Cmd::RESULT);
  vs_assert(g_in == 1, "each message is read once");
  if (res && has) { vs_assert(v.put == 1 && v.back[0] == g_in_item, "a returned item is put into the broker exactly once"); vs_assert(v.asked_at_put == 0, "a result is delivered before the next item is fetched"); }
  else vs_assert(v.put == 0, "nothing but the item of a result is put into the broker");
  vs_assert(v.asked == std::size_t(get | res), "exactly one item is asked for per request or result, and none otherwise");
  if (get | res) {
    vs_assert(g_out == 1 && r == "out", "a request is answered by exactly one message");
    if (v.n) vs_assert(g_out_cmd == Cmd::COMPUTE && g_out_item == v.item[0], "the item fetched is handed to the client for processing");
    else vs_assert(g_out_cmd == Cmd::NODATA && !g_out_item, "without an item the client is told that there is no data");
  } else vs_assert(g_out == 0 && r.empty(), "messages that cannot be read or understood get no work");
  vs_assert(v.fetched == std::size_t((get | res) && v.n), "no item is lost"); vs_assert(g_closed == 0 || g_in_garbage, "the connection is closed after errors only");
  for (std::size_t i = 0; i < v.n; ++i) vs_assert(v.item[i]->calls == 0, "a session does not process items itself");
}
VS_ENTRY(asio_session) { serve<AS>(); }
VS_ENTRY(websocket_session) { serve<WS>(); }
// errors of the broker do not leave the session, and a result is never delivered twice
VS_ENTRY(asio_session_errors) {
  Server v; v.n = 1; v.item[0] = std::make_shared<W>(); g_mode = Mode::BINARY; AS *s = session<AS>(v, g_mode); g_in_garbage = false;
  unsigned w = unsigned(vs_choice("what fails", 3)); v.get_throws = w == 0; v.put_throws = w == 1; g_out_fails = w == 2; bool res = vs_choice("result", 2); g_in_cmd = res ? Cmd::RESULT : Cmd::GETDATA; g_in_item = res ? std::make_shared<W>() : P();
  std::string r = "?"; bool t = vs_throws([&] { r = ask(s); }); g_out_fails = false; bool fails = w != 1 || res;
  vs_assert(!t, "errors of the broker do not leave the session"); vs_assert(v.put == std::size_t(res), "a result is delivered exactly once"); vs_assert(r.empty() == fails, "a request that failed gets an empty answer");
}
// the reading and answering steps of a session
VS_ENTRY(asio_session_steps) {
  Server v; v.n = 1; v.item[0] = std::make_shared<W>(); g_mode = Mode::BINARY; AS *s = session<AS>(v, g_mode); g_in_garbage = false; g_in_cmd = Cmd::GETDATA; g_in_item = P(); g_written = 0; g_wire.clear();
  unsigned e = unsigned(vs_choice("end of the message", 3)); boost::system::error_code ec; if (e == 1) ec = boost::asio::error::eof; if (e == 2) ec = boost::asio::error::connection_reset;
  s->m_incoming_message_str = "in"; s->when_read(ec, 2);
  if (e == 1) vs_assert(g_written == 1 && g_wire == "out" && v.fetched == 1 && g_out_cmd == Cmd::COMPUTE, "a message received as a whole is answered");
  else vs_assert(g_written == 0 && v.fetched == 0 && v.put == 0, "incomplete messages are not acted upon");
}
// ---- clients
struct Base : GBaseClientT<W> { bool halt_asked = false; void run_() override {} bool customHalt() override { return halt_asked; } };
template <class C> static VS_NOINLINE C *client(Mode m) {
  C *c = raw<C>(); new (static_cast<void *>(c)) Base(); place(c->m_command_container, Cmd::NONE); c->m_serialization_mode = m; place(c->m_rng_engine); return c;
}
static VS_NOINLINE void receive(AC *c) { place(c->m_incoming_message_str); place(c->m_outgoing_message_str); c->m_incoming_message_str = "in"; g_chain = 0; c->async_process_request(); vs_assert(c->m_incoming_message_str.empty(), "messages are consumed"); }
static VS_NOINLINE void receive(WC *c) { place(c->m_incoming_buffer); place(c->m_outgoing_message); auto b = c->m_incoming_buffer.prepare(2); auto x = *b.begin(); std::memcpy(x.data(), "in", 2); c->m_incoming_buffer.commit(2); c->process_request(); vs_assert(c->m_incoming_buffer.size() == 0 && !c->m_processing_is_active, "messages are consumed"); }
static int sent(AC *) { return g_chain; }
static int sent(WC *) { return g_written; }
template <class C> static VS_NOINLINE void answer() {
  g_mode = mode(); C *c = client<C>(g_mode); std::uint32_t done = c->m_processed = vs_u32("processed"); std::uint64_t nodata = c->m_n_nodata = vs_u64("no data"); arbitrary(c->m_command_container); g_out_fails = false; g_shut = g_chain = g_written = 0;
  g_in_garbage = vs_choice("garbage", 2); Cmd m = command("command"); bool has = vs_choice("with item", 2); P x = has ? std::make_shared<W>() : P(); int o = int(vs_choice("outcome", N_OUT));
  if (x) { x->outcome = o; x->mark_as_due_for_processing(); } g_in_cmd = m; g_in_item = x; g_calls = 0; g_out = 0; g_slept = 0;
  bool t = vs_throws([&] { receive(c); }); bool compute = !g_in_garbage & (m == Cmd::COMPUTE) & has, none = !g_in_garbage & (m == Cmd::NODATA);
  vs_assert(g_calls == int(compute), "a client processes each item it is given exactly once, and nothing else");
  if (compute) {
    vs_assert(!t && sent(c) == 1 && g_wire == "out" && g_out == 1 && g_out_cmd == Cmd::RESULT && g_out_item == x, "each processed item is returned, also after errors");
    vs_assert(o == OK ? x->is_processed() && x->getStoredResult(0) == 7. : x->has_errors() && !x->is_processed(), "results and errors travel in the item");
  } else if (none) { vs_assert(!t && sent(c) == 1 && g_wire == "out" && g_out == 1 && g_out_cmd == Cmd::GETDATA && !g_out_item, "a client asks again when there was no data"); vs_assert((g_slept >= 50) & (g_slept <= 200), "a client waits before asking again"); }
  else vs_assert(t && sent(c) == 0 && g_out == 0, "a client does not answer messages it cannot read or understand");
  vs_assert((c->getNProcessed() == std::uint32_t(done + compute)) & (c->m_n_nodata == nodata + none), "processed items and idle requests are counted");
}
VS_ENTRY(asio_client) { answer<AC>(); }
VS_ENTRY(websocket_client) { answer<WC>(); }
VS_ENTRY(asio_client_steps) {
  g_mode = Mode::BINARY; AC *c = client<AC>(g_mode); g_in_garbage = g_out_fails = false; P x = std::make_shared<W>(); x->mark_as_due_for_processing(); g_in_cmd = Cmd::COMPUTE; g_in_item = x; g_calls = g_chain = g_shut = 0;
  place(c->m_incoming_message_str); place(c->m_outgoing_message_str); c->m_incoming_message_str = "in";
  switch (vs_choice("step", 3)) {
    case 0: {
      unsigned e = unsigned(vs_choice("end of the message", 3)); boost::system::error_code ec; if (e == 1) ec = boost::asio::error::eof; if (e == 2) ec = boost::asio::error::connection_reset;
      c->when_read(ec, 2); vs_assert((g_calls == int(e == 1)) & (g_chain == int(e == 1)) & (g_shut == int(e != 1)), "complete messages are acted upon, otherwise the client shuts down"); break; }
    case 1: {
      std::size_t n = c->m_max_reconnects = vs_u64("reconnects"), k = c->m_n_reconnects = vs_u64("tries"); vs_assume(k <= n); boost::system::error_code ec = boost::asio::error::connection_refused; c->when_connected(ec);
      vs_assert((g_chain == int(k < n)) & (g_shut == int(k >= n)), "a client tries to reconnect as often as allowed, then shuts down"); vs_assert(k >= n || c->m_n_reconnects == k + 1, "attempts are counted"); break; }
    case 2: { boost::system::error_code ec = boost::asio::error::connection_reset; if (vs_choice("resolved", 2)) c->when_written(ec, 0); else c->when_resolved(ec, {}); vs_assert((g_shut == 1) & (g_chain == 0), "failures of the connection shut the client down"); break; }
  }
}
// a connection that works: the prepared message is sent once and the number of attempts starts anew
VS_ENTRY(asio_client_send) {
  AC *c = client<AC>(Mode::BINARY); std::shared_ptr<AC> keep(c, [](AC *) {}); place(c->m_outgoing_message_str); place(c->m_incoming_message_str); c->m_outgoing_message_str = "out"; g_chain = g_shut = g_sock_writes = g_sock_reads = g_sock_connects = 0; g_sent.clear(); g_done = nullptr;
  std::size_t n = c->m_max_reconnects = vs_u64("reconnects"), k = c->m_n_reconnects = vs_u64("tries"); vs_assume(k <= n); boost::system::error_code ok, bad = boost::asio::error::connection_reset;
  if (vs_choice("resolved", 2)) { c->when_resolved(ok, {}); vs_assert((g_sock_connects == 1) & (g_sock_writes == 0) & (g_shut == 0), "a resolved address is connected to"); vs_assert(c->m_n_reconnects == k, "attempts are counted by connection");
    g_done(vs_choice("connected", 2) ? ok : bad); if (g_sock_writes == 0) { vs_assert((g_chain == int(k < n)) & (g_shut == int(k >= n)), "a client tries to reconnect as often as allowed, then shuts down"); return; } }
  else c->when_connected(ok);
  vs_assert((g_sock_writes == 1) & (g_sock_reads == 0) & (g_chain == 0) & (g_shut == 0) && g_sent == "out", "the message prepared is sent exactly once"); vs_assert(c->m_n_reconnects == 0, "a successful connection resets the number of attempts");
  g_done(bad); vs_assert((g_shut == 1) & (g_sock_reads == 0) & (g_sock_writes == 1) & (g_chain == 0), "failures of the connection shut the client down");
}
VS_ENTRY(asio_session_read) {
  Server v; v.n = 1; v.item[0] = std::make_shared<W>(); g_mode = Mode::BINARY; AS *s = session<AS>(v, g_mode); std::shared_ptr<AS> keep(s, [](AS *) {}); place(s->m_incoming_message_str); g_in_garbage = false; g_in_cmd = Cmd::GETDATA; g_in_item = P(); g_written = g_sock_reads = 0; g_done = nullptr; v.stop = vs_choice("server stopped", 2);
  s->async_start_run(); vs_assert((g_sock_reads == int(!v.stop)) & (v.asked == 0), "messages are accepted until the server stops"); if (v.stop) return;
  s->m_incoming_message_str = "in"; bool whole = vs_choice("whole", 2); boost::system::error_code ec; if (whole) ec = boost::asio::error::eof; else ec = boost::asio::error::connection_reset; g_done(ec);
  vs_assert((g_written == int(whole)) & (v.fetched == std::size_t(whole)), "messages received as a whole are answered, others are not"); vs_assert(g_sock_reads == 1, "a session serves one request");
}
// the next message goes out exactly if no halt condition is met
struct W2 : GProcessingContainerT<W2, double> { W2() : GProcessingContainerT<W2, double>(1) {} void process_() override {} };
struct Base2 : GBaseClientT<W2> { bool halt_asked = false; void run_() override {} bool customHalt() override { return halt_asked; } };
static int g_resolved = 0;
extern "C" __attribute__((used)) void vs_resolve(void *, const std::string *, const std::string *, void *) { ++g_resolved; }
extern "C" __attribute__((used)) void vs_no_socket(void **r, void *) { *r = nullptr; }
VS_ENTRY(asio_client_chain) {
  using C2 = GAsioConsumerClientT<W2>; C2 *c = raw<C2>(); new (static_cast<void *>(c)) Base2(); std::shared_ptr<C2> keep(c, [](C2 *) {}); place(c->m_address); place(c->m_outgoing_message_str); c->m_outgoing_message_str = "out";
  std::uint32_t n = c->m_processed = vs_u32("processed"), m = vs_u32("maximum"); c->setProcessMax(m); bool err = vs_choice("error", 2), close = vs_choice("close", 2); if (err) c->flagTerminalError(); if (close) c->flagCloseRequested(); g_resolved = 0;
  c->async_start_send_chain(); bool h = err | close | ((m > 0) & (n >= m));
  vs_assert(g_resolved == int(!h), "the next message goes out exactly if no halt condition is met"); vs_assert(c->m_outgoing_message_str == "out", "the message is kept until it is sent");
}
VS_ENTRY(client_halt) {
  Base b; b.m_processMax = vs_u32("maximum"); b.m_processed = vs_u32("processed"); bool err = vs_choice("error", 2), close = vs_choice("close", 2); b.halt_asked = vs_choice("custom", 2);
  if (err) b.flagTerminalError(); if (close) b.flagCloseRequested(); unsigned t = unsigned(vs_choice("time", 3));
  if (t) b.setMaxTime(std::chrono::milliseconds(t == 1 ? 5 : 50000)); b.m_startTime = std::chrono::high_resolution_clock::now(); if (t == 1) g_ns += 10000000;
  std::uint32_t n = b.getNProcessed(), m = b.getProcessMax(); bool h = b.halt();
  vs_assert(h == (err | close | b.halt_asked | ((m > 0) & (n >= m)) | (t == 1)), "a client halts exactly after an error, on request, at the maximum number of items or at the time limit");
  b.incrementProcessingCounter(); vs_assert(b.getNProcessed() == std::uint32_t(n + 1), "processed items are counted"); vs_assert((b.terminalErrorFlagged() == err) & (b.closeRequested() == close), "flags are kept");
}
// command containers
VS_ENTRY(command_container) {
  P x = std::make_shared<W>(); x->mark_as_due_for_processing(); x->outcome = int(vs_choice("outcome", N_OUT)); Cmd a = command("a"), b = command("b"); bool with = vs_choice("with item", 2);
  Container c(a); if (with) { if (vs_choice("reset", 2)) c.reset(a, x); else c = Container(a, x); }
  vs_assert(c.get_command() == a && c.get_payload() == (with ? x : P()), "containers hold the command and the item given"); g_calls = 0;
  bool t = vs_throws([&] { c.process(); }); vs_assert(t == !with && g_calls == int(with), "the item of a container is processed exactly once, and there must be one");
  if (with) vs_assert(x->is_processed() == (x->outcome == OK) && x->has_errors() == (x->outcome != OK), "errors are recorded in the item");
  c.set_command(b); vs_assert(c.get_command() == b && c.get_payload() == (with ? x : P()), "processing and new commands keep the item");
  Container d(std::move(c)); vs_assert(d.get_command() == b && d.get_payload() == (with ? x : P()), "containers can be moved"); d.reset(); vs_assert(d.get_command() == Cmd::NONE && !d.get_payload(), "containers can be emptied");
}
