package main

// Plan describes one simulated run completely: the same plan always gives
// the same execution. Replay files hold a plan.
type Plan struct {
	Version  int            `json:"version"`
	Scenario string         `json:"scenario"` // pipeline, crl
	Flavor   string         `json:"flavor"`
	Seed     uint64         `json:"seed"`
	Start    int64          `json:"start_ns"`
	PickRnd  int            `json:"pick_rnd"`  // per 1024: random choice of the next goroutine
	YieldPr  int            `json:"yield_pr"`  // per 1024: preemption at synchronisation operations
	Rates    map[string]int `json:"rates"`     // fault kind -> per 100000
	Allow    *[]string      `json:"allow"`     // exactly these faults (nil: by rate)
	FaultEnd int64          `json:"fault_end"` // random faults stop here (ns after start)
	End      int64          `json:"end"`
	MaxEv    int            `json:"max_events,omitempty"`
	StopAt   int64          `json:"stop_at,omitempty"` // end here, without the final phase

	Cfg     PipeCfg     `json:"cfg"`
	Issuers int         `json:"issuers"`
	Logs    []LogPlan   `json:"logs,omitempty"`
	Certs   []CertPlan  `json:"certs,omitempty"`
	Events  []EventPlan `json:"events,omitempty"`
	Preset  *PresetPlan `json:"preset,omitempty"`
	CRL     *CRLPlan    `json:"crl,omitempty"`
}

// PipeCfg configures the programs of the certificate pipeline.
type PipeCfg struct {
	BatchSize    int  `json:"batch_size"`
	PollingDelay int  `json:"polling_delay"` // s
	RunForever   bool `json:"run_forever"`
	RSInterval   int  `json:"rs_interval"` // s; 0: no remote settings
	NumThreads   int  `json:"num_threads"`
	RedisTimeout int  `json:"redis_timeout"` // s
	RestartDelay int  `json:"restart_delay"` // s
	LogExpired   bool `json:"log_expired,omitempty"`
	LogFiles     bool `json:"log_files,omitempty"`
	TmpOnDisk    bool `json:"tmp_on_disk,omitempty"`
	Enrolled     int  `json:"enrolled"` // bit mask of issuers in the root program
}

type LogPlan struct {
	Tiled    bool  `json:"tiled"`
	MMD      int64 `json:"mmd"`
	Remote   bool  `json:"remote"`   // enrolled through remote settings
	Enrolled bool  `json:"enrolled"` // crlite_enrolled at the start
	MaxGet   int   `json:"max_get"`
	STHEvery int64 `json:"sth_every"` // s
}

// CertPlan is one certificate accepted by one log.
type CertPlan struct {
	At       int64  `json:"at"`    // ns after start; negative: before
	Merge    int64  `json:"merge"` // ns
	Log      int    `json:"log"`
	Issuer   int    `json:"issuer"`
	Serial   string `json:"serial"`
	NotAfter int64  `json:"not_after"`      // s after start
	Kind     string `json:"kind,omitempty"` // "": precert, cert, preissuer, root, noca
}

// EventPlan is an explicit event of the environment.
type EventPlan struct {
	At   int64  `json:"at"`
	Kind string `json:"kind"`
	Who  string `json:"who,omitempty"`
	Arg  int64  `json:"arg,omitempty"`
}

// PresetPlan is what persistent storage holds before the run.
type PresetPlan struct {
	Epoch    int64       `json:"epoch"`
	CacheNew bool        `json:"cache_new"` // the cache does not know that epoch
	Bins     []PresetBin `json:"bins"`
}

type PresetBin struct {
	Issuer  int      `json:"issuer"`
	Day     bool     `json:"day"` // a bin of a whole day, as older versions wrote
	At      int64    `json:"at"`  // s after start
	Serials []string `json:"serials"`
}
