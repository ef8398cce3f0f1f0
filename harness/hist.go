package main

import (
	"context"
	"sync"
	"time"

	"github.com/awcullen/opcua/ua"
)

// histCall is one call of the historian's reading side.
type histCall struct {
	kind    string
	nodes   []ua.HistoryReadValueID
	details any
	ts      ua.TimestampsToReturn
	release bool
}

type histWrite struct {
	id ua.NodeID
	v  ua.DataValue
	at time.Time
}

// recHistorian records every call and answers through answer.
type recHistorian struct {
	mu     sync.Mutex
	calls  []histCall
	writes []histWrite
	answer func(histCall) ([]ua.HistoryReadResult, ua.StatusCode)
	delay  func()
}

func (h *recHistorian) count() int { h.mu.Lock(); defer h.mu.Unlock(); return len(h.calls) }

func (h *recHistorian) WriteEvent(ctx context.Context, id ua.NodeID, fields []ua.Variant) error {
	return nil
}

func (h *recHistorian) WriteValue(ctx context.Context, id ua.NodeID, v ua.DataValue) error {
	if h.delay != nil {
		h.delay()
	}
	h.mu.Lock()
	h.writes = append(h.writes, histWrite{id, v, time.Now()})
	h.mu.Unlock()
	return nil
}

func (h *recHistorian) read(kind string, nodes []ua.HistoryReadValueID, details any, ts ua.TimestampsToReturn, release bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	k := histCall{kind, append([]ua.HistoryReadValueID{}, nodes...), details, ts, release}
	h.mu.Lock()
	h.calls = append(h.calls, k)
	h.mu.Unlock()
	if h.answer != nil {
		return h.answer(k)
	}
	return make([]ua.HistoryReadResult, len(nodes)), ua.Good
}

func (h *recHistorian) ReadEvent(_ context.Context, n []ua.HistoryReadValueID, d ua.ReadEventDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("event", n, d, ts, rel)
}
func (h *recHistorian) ReadRawModified(_ context.Context, n []ua.HistoryReadValueID, d ua.ReadRawModifiedDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("raw", n, d, ts, rel)
}
func (h *recHistorian) ReadProcessed(_ context.Context, n []ua.HistoryReadValueID, d ua.ReadProcessedDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("processed", n, d, ts, rel)
}
func (h *recHistorian) ReadAtTime(_ context.Context, n []ua.HistoryReadValueID, d ua.ReadAtTimeDetails, ts ua.TimestampsToReturn, rel bool) ([]ua.HistoryReadResult, ua.StatusCode) {
	return h.read("attime", n, d, ts, rel)
}
