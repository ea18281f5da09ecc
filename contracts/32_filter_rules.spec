package filter

// what the type of a rule makes of its configuration
def typeok(c) = c.Rtype == "basic" || c.Rtype == "tags" || c.Rtype == "regex" || c.Rtype == "negregex"

def rtag(f, i) = ptr(of(f, Int, ref(*tags)), of(f, Int, off(*tags)) + i, *influx.Tag)

// rule r does what configuration c says. With the contracts of the functions the
// constructors return this says which lines it matches.
def ruleof(r, c) = r.match != nil && r.subject == c.Subject
  && (c.Rtype == "basic" ==> isfun(r.match, filter.CreateBasicRule$1) && of(r.match, S, *measurement) == c.Match)
  && (c.Rtype == "regex" ==> isfun(r.match, filter.CreateRegexRule$1) && of(r.match, S, repat(*reg)) == c.Match)
  && (c.Rtype == "negregex" ==> isfun(r.match, filter.CreateNegativeRegexRule$1) && of(r.match, S, repat(*reg)) == c.Match)
  && (c.Rtype == "tags" ==> isfun(r.match, filter.CreateTagRule$1) && of(r.match, Int, len(*tags)) == len(c.Tags))

def tagsof(r, c) = c.Rtype == "tags" ==> (forall i :: 0 <= i && i < len(c.Tags) ==> b(rtag(r.match, i).Key) == c.Tags[i][0] && b(rtag(r.match, i).Value) == c.Tags[i][1])

contract influx.NewTag(key, value) (t)
  ensures b(t.Key) == key && b(t.Value) == value

// configurations that have passed validation
def ruletags(c) = forall j :: 0 <= j && j < len(c.Rule) ==> forall i :: 0 <= i && i < len(c.Rule[j].Tags) ==> len(c.Rule[j].Tags[i]) == 2

contract filter.RuleSetFromConfig(conf) (r, err)
  requires conf != nil && ruletags(conf)
  ensures err == nil <==> forall j :: 0 <= j && j < len(conf.Rule) ==> typeok(conf.Rule[j])
  ensures err == nil ==> r != nil && len(r.rules) == len(conf.Rule)
  ensures err == nil ==> forall j :: 0 <= j && j < len(conf.Rule) ==> ruleof(r.rules[j], conf.Rule[j])
  invariant len(rs.rules) == #i
  invariant rs.rules == nil || fresh(rs.rules)
  invariant forall j :: 0 <= j && j < #i ==> typeok(conf.Rule[j])
  invariant forall j :: 0 <= j && j < #i ==> ruleof(rs.rules[j], conf.Rule[j])
  invariant len(tags) == #i
