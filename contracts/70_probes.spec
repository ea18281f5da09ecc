package probes

// ---- what an atomic value holds, when that is a bool
ghostfield avset: Bool of atomic.Value
ghostfield avb: Bool of atomic.Value

open http.Server

extern atomic.(*Value).Store(v, x)
  requires x != nil
  modifies avset(v), avb(v)
  ensures istype(x, bool) ==> avset(v) && avb(v) == as(x, bool)

extern atomic.(*Value).Load(v) (r)
  ensures avset(v) ==> istype(r, bool) && as(r, bool) == avb(v)

// ---- the handlers of a server, by path, and the response to a request
ghostfield hfn: [S]Int

ghostfield wst: Int

extern http.NewServeMux() (m)
  ensures m != nil && fresh(m)

extern http.(*ServeMux).HandleFunc(m, pattern, f)
  requires f != nil
  modifies hfn(m)
  ensures hfn(m) == store(old(hfn(m)), pattern, f)

extern http.ResponseWriter.WriteHeader(w, code)
  modifies wst(w)
  ensures wst(w) == code

extern http.Error(w, text, code)
  modifies wst(w)
  ensures wst(w) == code

// how many ports were opened
ghost lports: Int

extern http.(*Server).ListenAndServe(s) (err)
  modifies lports
  ensures lports == old(lports) + 1

contract probes.newHandler(value) (h)
  requires value != nil
  ensures h != nil && isfun(h, probes.newHandler$1) && of(h, Int, ref(*value)) == ref(value)

contract probes.newHandler$1(w, r)
  requires *value != nil && avset(*value) && w != nil
  modifies wst(w)
  ensures wst(w) == (if avb(*value) then 200 else 503)

contract probes.(*listener).SetAlive(p, alive)
  requires p.alive != nil && p.ready != p.alive
  modifies avset(p.alive), avb(p.alive)
  ensures avset(p.alive) && avb(p.alive) == alive

contract probes.(*listener).SetReady(p, ready)
  requires p.ready != nil && p.ready != p.alive
  modifies avset(p.ready), avb(p.ready)
  ensures avset(p.ready) && avb(p.ready) == ready

contract probes.(*nullListener).SetAlive(p, alive)
  requires p != nil

contract probes.(*nullListener).SetReady(p, ready)
  requires p != nil

contract probes.(*nullListener).Close(p)
  requires p != nil

contract probes.Listen(port) (p)
  ensures p != nil
  ensures port <= 0 ==> istype(p, *probes.nullListener) && as(p, *probes.nullListener) != nil
  ensures port > 0 ==> istype(p, *probes.listener) && fresh(as(p, *probes.listener))
  ensures port > 0 ==> let l = as(p, *probes.listener) in avset(l.alive) && avb(l.alive) && avset(l.ready) && !avb(l.ready) && l.alive != l.ready && l.alive != nil && l.ready != nil && l.server != nil && l.server.Addr == ":" + itoa(port)
  ensures port > 0 ==> let l = as(p, *probes.listener) in istype(l.server.Handler, *http.ServeMux)
  ensures port > 0 ==> let l = as(p, *probes.listener) in let m = as(l.server.Handler, *http.ServeMux) in of(hfn(m)["/healthz"], Int, ref(*value)) == ref(l.alive) && of(hfn(m)["/readyz"], Int, ref(*value)) == ref(l.ready) && isfun(hfn(m)["/healthz"], probes.newHandler$1) && isfun(hfn(m)["/readyz"], probes.newHandler$1)

property C25
  functions probes.Listen probes.newHandler probes.newHandler$1 probes.(*listener).SetAlive probes.(*listener).SetReady probes.(*nullListener).SetAlive probes.(*nullListener).SetReady probes.(*nullListener).Close
  bounded probes:TestC25 states and answers over the loopback network
  note sync/atomic and net/http are assumed to have the contracts given for them
