package writer

// ---- HTTP requests: what they consist of
ghostfield rdrest: S
ghostfield rqmeth: S
ghostfield rqurl: S
ghostfield rqbody: S
ghostfield rqauth: Bool
ghostfield rquser: S
ghostfield rqpass: S
// and those that were made
ghost hn: Int
ghost hmeth: [Int]S
ghost hurl: [Int]S
ghost hbody: [Int]S
ghost hauth: [Int]Bool
ghost huser: [Int]S
ghost hpass: [Int]S
// the status of the last response, 0 if there was none
ghost hstatus: Int

open http.Response

extern bytes.NewReader(p) (r)
  ensures r != nil && fresh(r) && rdrest(r) == b(p)

extern http.NewRequest(method, url, body) (req, err)
  ensures err == nil ==> req != nil && fresh(req) && rqmeth(req) == method && rqurl(req) == url && !rqauth(req)
  ensures err == nil && istype(body, *bytes.Reader) ==> rqbody(req) == rdrest(as(body, *bytes.Reader))

extern http.(*Request).SetBasicAuth(req, user, pass)
  modifies rqauth(req), rquser(req), rqpass(req)
  ensures rqauth(req) && rquser(req) == user && rqpass(req) == pass

extern http.(*Client).Do(c, req) (resp, err)
  modifies hn, hmeth, hurl, hbody, hauth, huser, hpass, hstatus
  ensures hn == old(hn) + 1 && hmeth == store(old(hmeth), old(hn), rqmeth(req)) && hurl == store(old(hurl), old(hn), rqurl(req)) && hbody == store(old(hbody), old(hn), rqbody(req))
  ensures hauth == store(old(hauth), old(hn), rqauth(req)) && huser == store(old(huser), old(hn), rquser(req)) && hpass == store(old(hpass), old(hn), rqpass(req))
  ensures err == nil ==> resp != nil && resp.Body != nil && hstatus == resp.StatusCode
  ensures err != nil ==> hstatus == 0

// ---- what was given to Write, and whether it was written
ghost cwn: Int
ghost cwbuf: [Int]S
ghost cwok: [Int]Bool

contract writer.(*influxClient).Write(ic, buf) (err)
  requires ic != nil && ic.client != nil
  modifies hn, hmeth, hurl, hbody, hauth, huser, hpass, hstatus, cwn, cwbuf, cwok
  set cwn = old(cwn) + 1
  set cwbuf = store(old(cwbuf), old(cwn), old(b(buf)))
  set cwok = store(old(cwok), old(cwn), err == nil)
  ensures cwn == old(cwn) + 1 && cwbuf == store(old(cwbuf), old(cwn), old(b(buf))) && cwok == store(old(cwok), old(cwn), err == nil)
  // one request, unless none could be made from the URL
  ensures hn == old(hn) || hn == old(hn) + 1
  ensures hn == old(hn) + 1 ==> hmeth == store(old(hmeth), old(hn), "POST") && hurl == store(old(hurl), old(hn), ic.url) && hbody == store(old(hbody), old(hn), old(b(buf)))
  ensures hn == old(hn) + 1 ==> (hauth[old(hn)] <==> ic.username != "") && (ic.username != "" ==> huser[old(hn)] == ic.username && hpass[old(hn)] == ic.password)
  ensures err == nil <==> hn == old(hn) + 1 && 200 <= hstatus && hstatus < 300
  ensures err != nil ==> istype(err, *writer.clientError) && as(err, *writer.clientError) != nil
  ensures err != nil ==> (as(err, *writer.clientError).permanent <==> hn == old(hn) || 400 <= hstatus && hstatus < 500)

contract writer.isHTTPPOSTSuccess(code) (r)
  ensures r <==> 200 <= code && code < 300

contract writer.isHTTPClientError(code) (r)
  ensures r <==> 400 <= code && code < 500

contract writer.newClientError(v, permanent) (e)
  ensures e != nil && fresh(e) && e.permanent == permanent

contract writer.isPermanentError(err) (r)
  requires istype(err, *writer.clientError) ==> as(err, *writer.clientError) != nil
  ensures r <==> err != nil && istype(err, *writer.clientError) && as(err, *writer.clientError).permanent

contract writer.newInfluxClient(c) (ic)
  requires c != nil
  ensures ic != nil && fresh(ic) && ic.client != nil && ic.username == c.InfluxDBUser && ic.password == c.InfluxDBPass
  ensures ic.url == c.InfluxDBProtocol + "://" + c.InfluxDBAddress + ":" + itoa(c.InfluxDBPort) + "/write?db=" + c.DBName

contract writer.(*clientError).Permanent(e) (r)
  requires e != nil
  ensures r == e.permanent
