// Makes the front end instantiate the result type's accessors for the types the
// specifications observe.  Contains no code of its own that is analysed.
#include <memory>
#include <string>
#include <vector>

#include "nsasm/error.h"
#include "nsasm/ranges.h"
#include "nsasm/rom.h"
#include "nsasm/address.h"
#include "nsasm/expression.h"
#include "nsasm/memory.h"
#include "nsasm/instruction.h"
#include "nsasm/decode.h"
#include "nsasm/disassemble.h"
#include "nsasm/file.h"

namespace {
template <typename T>
void Use(nsasm::ErrorOr<T>& e, const nsasm::ErrorOr<T>& c) {
  (void)c.ok();
  (void)c.error();
  (void)*e;
  (void)*c;
}
}  // namespace

void InstantiateForAnalysis() {
  using nsasm::ErrorOr;
  extern ErrorOr<std::unique_ptr<nsasm::Rom>>& a;
  extern ErrorOr<std::vector<std::uint8_t>>& b;
  extern ErrorOr<int>& c;
  extern ErrorOr<std::size_t>& d;
  extern ErrorOr<void>& e;
  Use(a, a);
  Use(b, b);
  Use(c, c);
  Use(d, d);
  Use(e, e);
  extern ErrorOr<std::map<nsasm::Address, nsasm::StatusFlags>>& f;
  Use(f, f);
  extern ErrorOr<nsasm::File>& g;
  Use(g, g);
  extern nsasm::RangeMap<int>& m;
  nsasm::DataRange r;
  (void)m.Insert(r, 1);
  (void)m.Lookup(nsasm::Address(0u));
  (void)m.Contains(nsasm::Address(0u));
}

void InstantiateDiagnostics(const std::string& s) {
  (void)nsasm::Error("%s", s);
}

// Environments whose behaviour the specifications prescribe (their members are replaced by the analysis).
namespace nsa_spec {
struct Sink : nsasm::OutputSink {
  nsasm::ErrorOr<void> Write(nsasm::Address, absl::Span<const std::uint8_t>) override { return {}; }
};
struct Source : nsasm::InputSource {
  std::string Path() const override { return {}; }
  nsasm::ErrorOr<std::vector<std::uint8_t>> Read(nsasm::Address, int) const override { return nsasm::Error("read"); }
};
struct Names : nsasm::LookupContext {
  nsasm::ErrorOr<int> Lookup(const nsasm::FullIdentifier&) const override { return 0; }
};
struct Locals : nsasm::IsLocalContext {
  bool IsLocal(const nsasm::FullIdentifier&) const override { return false; }
};

// A call as a client writes it: the front end picks the overload or instantiation.
bool Same(const nsasm::ErrorOr<int>& a, const nsasm::ErrorOr<int>& b) { return a == b; }
bool Differ(const nsasm::ErrorOr<int>& a, const nsasm::ErrorOr<int>& b) { return a != b; }
bool Same(const nsasm::ErrorOr<void>& a, const nsasm::ErrorOr<void>& b) { return a == b; }
bool Differ(const nsasm::ErrorOr<void>& a, const nsasm::ErrorOr<void>& b) { return a != b; }
void SetLocation(nsasm::Error& e, const nsasm::Location& a) { e.SetLocation(a); }
void SetLocations(nsasm::Error& e, const nsasm::Location& a, const nsasm::Location& b) { e.SetLocation(a, b); }
}  // namespace nsa_spec

void UseEnvironments(const std::string& s) {
  nsa_spec::Sink a;
  nsa_spec::Source b;
  nsa_spec::Names c;
  nsa_spec::Locals d;
  nsasm::Instruction e;
  nsasm::IdentifierExpression f{nsasm::FullIdentifier(s)};
}
