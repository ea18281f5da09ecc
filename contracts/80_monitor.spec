package monitor

open nats.Msg

guarded monitor.Monitor.metrics by mu

// what the lock protects, whenever it isn't held
def monok(m) = m != nil && setok(m.metrics)

contract monitor.(*Monitor).receiveMetrics(m, msg)
  lockcheck
  requires monok(m) && msg != nil && !held(&m.mu)
  modifies held(&m.mu), sortp, entries(m.metrics.metrics), heap("prometheus.Label")
  ensures monok(m) && !held(&m.mu)
  // a malformed message changes nothing
  ensures !(forall j :: {lst(b(msg.Data), '\n', j)} 0 <= j && j < nlines(b(msg.Data), '\n', 0) ==> blank(b(msg.Data), j) || metricok(pline(b(msg.Data), j))) ==> forall k :S :: (has(m.metrics.metrics, k) <==> old(has(m.metrics.metrics, k))) && m.metrics.metrics[k] == old(m.metrics.metrics[k])

contract monitor.(*Monitor).serveHTTP$1(w, r)
  lockcheck
  requires r != nil && r.Body != nil && w != nil && monok(*m) && !held(&(*m).mu)
  modifies everything
  ensures !held(&(*m).mu)
