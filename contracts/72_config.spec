package config

global Fs != nil

def portok(p) = 0 <= p && p <= 65535
def tagspairs(r) = len(r.Tags) > 0 && forall j :: 0 <= j && j < len(r.Tags) ==> len(r.Tags[j]) == 2
def matchok(r) = (r.Rtype != "tags" ==> r.Match != "" && len(r.Tags) == 0) && (r.Rtype == "tags" ==> r.Match == "" && tagspairs(r))
def rulesok_(c, subjects) = forall i :: 0 <= i && i < len(c.Rule) ==> c.Rule[i].Rtype != "" && (subjects <==> c.Rule[i].Subject != "") && matchok(c.Rule[i])

def listenerok(c) = 1 <= c.Port && c.Port <= 65535 && len(c.NATSSubject) == 1 && c.BatchMaxSize <= 1048576
def filterok(c) = len(c.NATSSubject) == 1 && rulesok_(c, true)
def downok(c) = c.DownsamplePeriod.Duration != 0 && c.DownsampleSuffix != ""
def writerok(c) = len(c.NATSSubject) >= 1 && 1 <= c.InfluxDBPort && c.InfluxDBPort <= 65535 && (c.InfluxDBProtocol == "http" || c.InfluxDBProtocol == "https") && (c.InfluxDBUser == "" <==> c.InfluxDBPass == "") && rulesok_(c, false)

def islistener(m) = m == "listener" || m == "listener_http"

def confok(c) = portok(c.ProbePort) && portok(c.PprofPort) && (c.Mode != "downsampler" ==> c.DownsamplePeriod.Duration == 0)
   && (islistener(c.Mode) || c.Mode == "filter" || c.Mode == "downsampler" || c.Mode == "writer" || c.Mode == "monitor")
   && (islistener(c.Mode) ==> listenerok(c)) && (c.Mode == "filter" ==> filterok(c)) && (c.Mode == "downsampler" ==> downok(c)) && (c.Mode == "writer" ==> writerok(c))

contract config.(*Rule).validateMatch(rule) (err)
  requires rule != nil
  ensures err == nil <==> matchok(rule)
  invariant forall j :: 0 <= j && j < #i ==> len(rule.Tags[j]) == 2

contract config.(*Config).validateListener(c) (err)
  requires c != nil
  ensures err == nil <==> listenerok(c)

contract config.(*Config).validateFilter(c) (err)
  requires c != nil
  ensures err == nil <==> filterok(c)
  invariant forall i :: 0 <= i && i < #i ==> c.Rule[i].Rtype != "" && c.Rule[i].Subject != "" && matchok(c.Rule[i])

contract config.(*Config).validateDownsampler(c) (err)
  requires c != nil
  ensures err == nil <==> downok(c)

contract config.(*Config).validateWriter(c) (err)
  requires c != nil
  ensures err == nil <==> writerok(c)
  invariant forall i :: 0 <= i && i < #i ==> c.Rule[i].Rtype != "" && c.Rule[i].Subject == "" && matchok(c.Rule[i])

contract config.(*Config).Validate(c) (err)
  requires c != nil
  ensures err == nil <==> confok(c)

// ---- reading configuration files

// What the files read so far made of the configuration (its fields after the
// last file was decoded), how many files were decoded, and which.
ghost cfn: Int
ghost cff: [Int]S
ghost cfName: S
ghost cfMode: S
ghost cfNATSAddress: S
ghost cfNATSSubjectMonitor: S
ghost cfNATSSubjectJunkyard: S
ghost cfInfluxDBAddress: S
ghost cfInfluxDBProtocol: S
ghost cfInfluxDBPort: Int
ghost cfInfluxDBUser: S
ghost cfInfluxDBPass: S
ghost cfDBName: S
ghost cfBatchMaxCount: Int
ghost cfBatchMaxSize: Int
ghost cfBatchMaxAge: Int
ghost cfPort: Int
ghost cfWorkers: Int
ghost cfWriteTimeout: Int
ghost cfWriterRetryBatches: Int
ghost cfWriterRetryInterval: Int
ghost cfWriterRetryTimeout: Int
ghost cfReadBufferSize: Int
ghost cfNATSMaxPendingSize: Int
ghost cfMaxTimeDelta: Int
ghost cfStatsInterval: Int
ghost cfProbePort: Int
ghost cfPprofPort: Int
ghost cfDebug: Bool
ghost cfDownsamplePeriod: Int
ghost cfDownsampleSuffix: S
ghost cfQueueGroup: S
ghost cfsubn: Int
// where the rules of each file are, and how many (a null reference: none)
ghost cfrr: [Int]Int
ghost cfrl: [Int]Int

def slicesame(c) = len(c.NATSSubject) == cfsubn
def rulesread(c, k) = ref(c.Rule) == cfrr[k] && len(c.Rule) == cfrl[k] && (c.Rule == nil || off(c.Rule) == 0)
def asread(c) = c.Name == cfName && c.Mode == cfMode && c.NATSAddress == cfNATSAddress && c.NATSSubjectMonitor == cfNATSSubjectMonitor && c.NATSSubjectJunkyard == cfNATSSubjectJunkyard && c.InfluxDBAddress == cfInfluxDBAddress && c.InfluxDBProtocol == cfInfluxDBProtocol && c.InfluxDBPort == cfInfluxDBPort && c.InfluxDBUser == cfInfluxDBUser && c.InfluxDBPass == cfInfluxDBPass && c.DBName == cfDBName && c.BatchMaxCount == cfBatchMaxCount && c.BatchMaxSize == cfBatchMaxSize && c.BatchMaxAge.Duration == cfBatchMaxAge && c.Port == cfPort && c.Workers == cfWorkers && c.WriteTimeout.Duration == cfWriteTimeout && c.WriterRetryBatches == cfWriterRetryBatches && c.WriterRetryInterval.Duration == cfWriterRetryInterval && c.WriterRetryTimeout.Duration == cfWriterRetryTimeout && c.ReadBufferSize == cfReadBufferSize && c.NATSMaxPendingSize == cfNATSMaxPendingSize && c.MaxTimeDelta.Duration == cfMaxTimeDelta && c.StatsInterval.Duration == cfStatsInterval && c.ProbePort == cfProbePort && c.PprofPort == cfPprofPort && (c.Debug <==> cfDebug) && c.DownsamplePeriod.Duration == cfDownsamplePeriod && c.DownsampleSuffix == cfDownsampleSuffix && c.QueueGroup == cfQueueGroup && slicesame(c)
def restasread(c) = c.Mode == cfMode && c.NATSAddress == cfNATSAddress && c.NATSSubjectMonitor == cfNATSSubjectMonitor && c.NATSSubjectJunkyard == cfNATSSubjectJunkyard && c.InfluxDBAddress == cfInfluxDBAddress && c.InfluxDBProtocol == cfInfluxDBProtocol && c.InfluxDBPort == cfInfluxDBPort && c.DBName == cfDBName && c.BatchMaxCount == cfBatchMaxCount && c.BatchMaxAge.Duration == cfBatchMaxAge && c.Workers == cfWorkers && c.WriteTimeout.Duration == cfWriteTimeout && c.WriterRetryBatches == cfWriterRetryBatches && c.WriterRetryInterval.Duration == cfWriterRetryInterval && c.WriterRetryTimeout.Duration == cfWriterRetryTimeout && c.ReadBufferSize == cfReadBufferSize && c.NATSMaxPendingSize == cfNATSMaxPendingSize && c.MaxTimeDelta.Duration == cfMaxTimeDelta && c.StatsInterval.Duration == cfStatsInterval && c.ProbePort == cfProbePort && c.PprofPort == cfPprofPort && (c.Debug <==> cfDebug) && c.DownsampleSuffix == cfDownsampleSuffix && c.QueueGroup == cfQueueGroup && slicesame(c)

declare env(s:S): S
declare pathbase(s:S): S
declare pathext(s:S): S
def configname(p) = let b = pathbase(p) in b[0..len(b) - len(pathext(b))]

ghostfield openedas: S of afero.File

extern os.Getenv(key) (v)
  ensures v == env(key)

extern os.IsNotExist(err) (r)
  ensures r ==> err != nil
  ensures r <==> notexist(ref(err))

extern afero.NewOsFs() (r)
  ensures r != nil

extern filepath.Base(p) (r)
  ensures r == pathbase(p)

extern filepath.Ext(p) (r)
  ensures r == pathext(p) && len(r) <= len(p)

// A file opened is a new handle on the file of that name.
extern afero.Fs.Open(fs, name) (f, err)
  ensures err == nil ==> f != nil && fresh(f) && openedas(f) == name

extern afero.File.Close(f) (err)

// Decoding a file changes the fields the file sets. The first file is decoded
// over the defaults, later ones over what the previous ones left.
extern toml.DecodeReader(r, v) (md, err)
  requires istype(v, *config.Config)
  requires let c = as(v, *config.Config) in cfn == 0 ==> defaults(c)
  requires let c = as(v, *config.Config) in cfn > 0 ==> asread(c)
  requires as(v, *config.Config).Rule == nil
  modifies heap("config.Config"), heap("config.Duration"), cfn, cff, cfsubn, cfrr, cfrl, cfName, cfMode, cfNATSAddress, cfNATSSubjectMonitor, cfNATSSubjectJunkyard, cfInfluxDBAddress, cfInfluxDBProtocol, cfInfluxDBPort, cfInfluxDBUser, cfInfluxDBPass, cfDBName, cfBatchMaxCount, cfBatchMaxSize, cfBatchMaxAge, cfPort, cfWorkers, cfWriteTimeout, cfWriterRetryBatches, cfWriterRetryInterval, cfWriterRetryTimeout, cfReadBufferSize, cfNATSMaxPendingSize, cfMaxTimeDelta, cfStatsInterval, cfProbePort, cfPprofPort, cfDebug, cfDownsamplePeriod, cfDownsampleSuffix, cfQueueGroup
  ensures err != nil ==> cfn == old(cfn) && cff == old(cff)
  ensures err == nil ==> cfn == old(cfn) + 1 && cff == store(old(cff), old(cfn), openedas(r))
  ensures err == nil ==> asread(as(v, *config.Config)) && rulesread(as(v, *config.Config), old(cfn))
  ensures err == nil ==> cfrr == store(old(cfrr), old(cfn), cfrr[old(cfn)]) && cfrl == store(old(cfrl), old(cfn), cfrl[old(cfn)])
  ensures as(v, *config.Config).InfluxDBUser == old(as(v, *config.Config).InfluxDBUser) && as(v, *config.Config).InfluxDBPass == old(as(v, *config.Config).InfluxDBPass)

// The defaults of the documentation (durations in ns, sizes in bytes).
def defaults(c) = c.Name == "" && c.Mode == "" && c.NATSAddress == "nats://localhost:4222" && len(c.NATSSubject) == 1 && c.NATSSubject[0] == "influx-spout"
  && c.NATSSubjectMonitor == "influx-spout-monitor" && c.NATSSubjectJunkyard == "influx-spout-junk" && c.InfluxDBAddress == "localhost" && c.InfluxDBProtocol == "http"
  && c.InfluxDBPort == 8086 && c.InfluxDBUser == "" && c.InfluxDBPass == "" && c.DBName == "influx-spout-junk" && c.BatchMaxCount == 10 && c.BatchMaxSize == 0
  && c.BatchMaxAge.Duration == 300000000000 && c.Port == 0 && c.Workers == 8 && c.WriteTimeout.Duration == 30000000000 && c.WriterRetryBatches == 1
  && c.WriterRetryInterval.Duration == 10000000000 && c.WriterRetryTimeout.Duration == 60000000000 && c.ReadBufferSize == 4194304 && c.NATSMaxPendingSize == 209715200
  && c.Rule == nil && c.MaxTimeDelta.Duration == 600000000000 && c.StatsInterval.Duration == 3000000000 && c.ProbePort == 0 && c.PprofPort == 0 && !c.Debug
  && c.DownsamplePeriod.Duration == 0 && c.DownsampleSuffix == "-archive" && c.QueueGroup == ""

contract config.NewDuration(d) (r)
  ensures r.Duration == d

contract config.(*Duration).IsZero(d) (r)
  requires d != nil
  ensures r <==> d.Duration == 0

declare durof(s:S): Int
extern time.ParseDuration(s) (d, err)
  ensures err == nil ==> d == durof(s)

contract config.(*Duration).UnmarshalText(d, text) (err)
  requires d != nil
  modifies d.Duration
  ensures err == nil ==> d.Duration == durof(b(text))

contract config.newDefaultConfig() (c)
  ensures fresh(c) && c != nil
  ensures defaults(c)

contract config.readConfig(fileName, conf) (err)
  requires conf != nil
  requires cfn == 0 ==> defaults(conf)
  requires cfn > 0 ==> asread(conf)
  modifies heap("config.Config"), heap("config.Duration"), cfn, cff, cfsubn, cfrr, cfrl, cfName, cfMode, cfNATSAddress, cfNATSSubjectMonitor, cfNATSSubjectJunkyard, cfInfluxDBAddress, cfInfluxDBProtocol, cfInfluxDBPort, cfInfluxDBUser, cfInfluxDBPass, cfDBName, cfBatchMaxCount, cfBatchMaxSize, cfBatchMaxAge, cfPort, cfWorkers, cfWriteTimeout, cfWriterRetryBatches, cfWriterRetryInterval, cfWriterRetryTimeout, cfReadBufferSize, cfNATSMaxPendingSize, cfMaxTimeDelta, cfStatsInterval, cfProbePort, cfPprofPort, cfDebug, cfDownsamplePeriod, cfDownsampleSuffix, cfQueueGroup
  ensures err != nil ==> cfn == old(cfn) && cff == old(cff)
  ensures err != nil && notexist(ref(err)) && cfn == 0 ==> defaults(conf)
  ensures err == nil ==> cfn == old(cfn) + 1 && cff == store(old(cff), old(cfn), fileName)
  ensures err == nil ==> asread(conf)
  ensures err == nil ==> cfrr == store(old(cfrr), old(cfn), cfrr[old(cfn)]) && cfrl == store(old(cfrl), old(cfn), cfrl[old(cfn)])
  ensures err == nil && cfrr[old(cfn)] != 0 ==> rulesread(conf, old(cfn))
  ensures err == nil && cfrr[old(cfn)] == 0 ==> ref(conf.Rule) == old(ref(conf.Rule)) && len(conf.Rule) == old(len(conf.Rule)) && cfrl[old(cfn)] == 0

contract config.pathToConfigName(path) (r)
  ensures r == configname(path)

// What a successful read returns: the file system's common file if there is
// one, then the given file, over the defaults; then the defaults that depend
// on other settings; and the result satisfies the constraints of its mode.
contract config.NewConfigFromFile(fileName) (c, err)
  requires cfn == 0
  modifies heap("config.Config"), heap("config.Duration"), cfn, cff, cfsubn, cfrr, cfrl, cfName, cfMode, cfNATSAddress, cfNATSSubjectMonitor, cfNATSSubjectJunkyard, cfInfluxDBAddress, cfInfluxDBProtocol, cfInfluxDBPort, cfInfluxDBUser, cfInfluxDBPass, cfDBName, cfBatchMaxCount, cfBatchMaxSize, cfBatchMaxAge, cfPort, cfWorkers, cfWriteTimeout, cfWriterRetryBatches, cfWriterRetryInterval, cfWriterRetryTimeout, cfReadBufferSize, cfNATSMaxPendingSize, cfMaxTimeDelta, cfStatsInterval, cfProbePort, cfPprofPort, cfDebug, cfDownsamplePeriod, cfDownsampleSuffix, cfQueueGroup
  ensures err == nil ==> c != nil
  ensures err == nil ==> cfn == 1 && cff == store(old(cff), 0, fileName) || cfn == 2 && cff == store(store(old(cff), 0, "/etc/influx-spout.toml"), 1, fileName)
  ensures err == nil ==> restasread(c) && confok(c)
  ensures err == nil && (c.Mode == "filter" || c.Mode == "writer") ==> ruletags(c)
  ensures err == nil && cfrr[cfn - 1] != 0 ==> ref(c.Rule) == cfrr[cfn - 1] && len(c.Rule) == cfrl[cfn - 1]
  ensures err == nil && cfrr[cfn - 1] == 0 && cfn == 2 ==> ref(c.Rule) == cfrr[0] && len(c.Rule) == cfrl[0]
  ensures err == nil && cfrr[cfn - 1] == 0 && cfn == 1 ==> len(c.Rule) == 0
  ensures err == nil ==> c.Name == (if cfName == "" then configname(fileName) else cfName)
  ensures err == nil ==> c.BatchMaxSize == (if cfBatchMaxSize != 0 then cfBatchMaxSize else if islistener(c.Mode) then 1048576 else 10485760)
  ensures err == nil ==> c.Port == (if cfPort != 0 then cfPort else if c.Mode == "listener" then 10001 else if c.Mode == "listener_http" then 13337 else if c.Mode == "monitor" then 9331 else 0)
  ensures err == nil ==> c.DownsamplePeriod.Duration == (if cfDownsamplePeriod == 0 && c.Mode == "downsampler" then 60000000000 else cfDownsamplePeriod)
  ensures err == nil && c.Mode == "writer" ==> c.InfluxDBUser == env("INFLUXDB_USER") && c.InfluxDBPass == env("INFLUXDB_PASS")
  ensures err == nil && c.Mode != "writer" ==> c.InfluxDBUser == cfInfluxDBUser && c.InfluxDBPass == cfInfluxDBPass

property C24
  functions config.newDefaultConfig config.NewConfigFromFile config.readConfig config.pathToConfigName config.NewDuration config.(*Duration).IsZero config.(*Duration).UnmarshalText
  functions config.(*Config).Validate config.(*Config).validateListener config.(*Config).validateFilter config.(*Config).validateDownsampler config.(*Config).validateWriter config.(*Rule).validateMatch
  functions filter.RuleSetFromConfig
  globals config
  bounded config:TestC24Config option names, sizes and durations as the TOML library decodes them
