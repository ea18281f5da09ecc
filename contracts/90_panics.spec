package influx

// Every function received bytes pass through is under contract, and each
// obligation generated for it - bounds, nil, division, type assertions, maps,
// conversions and the preconditions of what it calls - is part of C26.
property C26
  functions listener.(*Listener).sendBatch listener.(*Listener).maybeSendBatch listener.(*Listener).listenUDP listener.(*Listener).oldBatchSender listener.(*Listener).handleHTTPWrite listener.newListener
  functions listener.(*Listener).readHTTPBody listener.(*Listener).readHTTPBodyNanos listener.(*Listener).readHTTPBodyWithPrecision listener.scanLines listener.(*Listener).shouldSend listener.applyTimestampPrecision
  functions batch.New batch.(*Batch).Size batch.(*Batch).Remaining batch.(*Batch).Bytes batch.(*Batch).CopyBytes batch.(*Batch).Writes
  functions batch.(*Batch).Age batch.(*Batch).Reset batch.(*Batch).Append batch.(*Batch).EnsureNewline batch.(*Batch).ReadOnceFrom batch.(*Batch).ReadFrom
  functions batch.realClock.Now batch.realClock.Since batch.(*Batch).appendImpl batch.(*Batch).grow batch.(*Batch).growIfLow batch.(*Batch).countWrite
  functions batchsplitter.New batchsplitter.(*BatchSplitter).Next batchsplitter.(*BatchSplitter).Chunk
  functions convert.ToInt
  functions influx.ExtractTimestamp influx.ExtractNanos influx.Unescape influx.Escape influx.EscapeTagPart influx.EscapeMeasurement
  functions influx.EscapeQuotedString influx.Token influx.TokenEscaped influx.QuotedString influx.ParseTags influx.TagSet.Len
  functions influx.TagSet.Less influx.TagSet.Swap influx.TagSet.Bytes influx.NewTag influx.TagSet.SubsetOf influx.SafeCalcTime
  functions filter.(*parsedLine).SortTags filter.(*worker).processLine filter.newParsedLine filter.(*RuleSet).LookupParsed filter.(*worker).processBatch filter.(*worker).sendOff
  functions filter.(*worker).publish filter.(*worker).run filter.newWorker filter.(*RuleSet).Subjects filter.(*RuleSet).Count filter.CreateBasicRule
  functions filter.CreateBasicRule$1 filter.CreateRegexRule filter.CreateRegexRule$1 filter.CreateNegativeRegexRule filter.CreateNegativeRegexRule$1 filter.CreateTagRule
  functions filter.CreateTagRule$1 filter.(*RuleSet).Append filter.(*RuleSet).Lookup filter.hashMeasurement filter.(*parsedLine).Unescaped
  functions filter.(*parsedLine).HashedMeasurement filter.extractTimestamp filter.initStats
  functions downsampler.newAssigner downsampler.(*assigner).Update downsampler.(*assigner).Bytes downsampler.(*assigner).UntilNext downsampler.(*assigner).prevT downsampler.(*assigner).nextT
  functions downsampler.(*assigner).findBucket downsampler.(*assigner).extractTimestamp downsampler.(*realClock).Now downsampler.isTimestampError downsampler.newTimestampError downsampler.newLineError
  functions downsampler.newAvgBucket downsampler.(*avgBucket).EndTime downsampler.(*Downsampler).worker downsampler.(*intFieldValue).update downsampler.(*intFieldValue).bytes downsampler.(*stringFieldValue).update
  functions downsampler.(*stringFieldValue).bytes downsampler.(*rawFieldValue).update downsampler.(*rawFieldValue).bytes downsampler.(*floatFieldValue).update downsampler.newFieldValue downsampler.newStringValue
  functions downsampler.newFieldPairs downsampler.(*fieldPairs).update downsampler.(*fieldPairs).bytes downsampler.(*avgBucket).AddLine downsampler.(*avgBucket).Bytes
  functions writer.(*Writer).shouldSend writer.(*Writer).worker writer.(*Writer).getBatchWriteFunc$1 writer.(*Writer).filterLine writer.newInfluxClient writer.(*influxClient).Write
  functions writer.newRetryWorker writer.(*retryQueue).Len writer.(*retryQueue).Add writer.(*retryQueue).Front writer.(*retryQueue).DropFront writer.(*retryQueue).CycleFront
  functions writer.(*retryQueue).removeOldest writer.(*retryWorker).loop writer.(*retryWorker).Writes writer.(*retryWorker).WriteErrors writer.isPermanentError writer.isHTTPPOSTSuccess
  functions writer.isHTTPClientError writer.newClientError writer.(*clientError).Permanent
  functions monitor.(*Monitor).receiveMetrics monitor.(*Monitor).serveHTTP$1
  functions prometheus.ParseMetric prometheus.parseLabels prometheus.ParseMetrics prometheus.NewMetricSet prometheus.(*MetricSet).All prometheus.(*MetricSet).Update
  functions prometheus.(*MetricSet).UpdateFromSet prometheus.metricKey prometheus.(*Metric).ToBytes prometheus.Labels.ToBytes prometheus.Labels.sort prometheus.(*MetricSet).ToBytes
  functions prometheus.Labels.sort$1 prometheus.Labels.With prometheus.NewLabel
  functions stats.NewAnon stats.(*AnonStats).Get stats.(*AnonStats).Inc stats.(*AnonStats).Max stats.New stats.(*Stats).lookup
  functions stats.(*Stats).Inc stats.(*Stats).Get stats.(*Stats).Max
  bounded influx:TestC26 random bytes through the package
  bounded prometheus:TestC26 random bytes through the package
  bounded monitor:TestC26 random bytes through the package
  bounded filter:TestC26 random bytes through the package
  bounded downsampler:TestC26 random bytes through the package
  bounded listener:TestC26 random bytes through the package
  bounded writer:TestC26 random bytes through the package
  note panics inside the standard library and other dependencies are excluded by their assumed contracts' preconditions only
