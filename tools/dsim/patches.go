package main

// Patches to the Go standard library, applied by exact replacement of anchored
// text; a missing or ambiguous anchor is a build error of the check.

type patch struct {
	file string // relative to GOROOT/src
	old  string
	new  string
}

var patches = []patch{
	// --- scheduler -------------------------------------------------------
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"runtime/proc.go", "	now, pollUntil, _ := pp.timers.check(0, nil)\n\n	// Try to schedule the trace reader.",
		"	now, pollUntil, _ := pp.timers.check(0, nil)\n\n	if sim.on {\n		if gp := simFindRunnable(pp); gp != nil {\n			return gp, false, false\n		}\n		goto top\n	}\n\n	// Try to schedule the trace reader."},
	// --- time ------------------------------------------------------------
	// Reading the clock from a program advances it by a nanosecond; the runtime's own readings do not.
	{"runtime/time.go", "		return gp.bubble.now\n	}\n	return nanotime()\n}", "		return gp.bubble.now\n	}\n	if sim.on {\n		faketime++\n	}\n	return nanotime()\n}"},
	{"runtime/time_fake.go", "	return faketime / 1e9, int32(faketime % 1e9), faketime\n",
		"	if sim.on {\n		faketime++\n	}\n	w := faketime + sim.wallOff\n	if t := sim.wallTick; t > 1 {\n		w -= w % t\n	}\n	return w / 1e9, int32(w % 1e9), faketime\n"},
	{"runtime/time_fake.go", "	if !(fd == 1 || fd == 2) {", "	if true {"},
	// --- randomness ------------------------------------------------------
	{"runtime/rand.go", "	seed := &globalRand.seed\n	if len(startupRand) >= 16 &&", "	seed := &globalRand.seed\n	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	if true {\n	} else if len(startupRand) >= 16 &&"},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n", "	if sim.on {\n		return simVal()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
	{"crypto/internal/sysrand/rand.go", "func Read(b []byte) {\n", "func Read(b []byte) {\n	if simRand(b) {\n		return\n	}\n"},
	{"crypto/internal/sysrand/rand.go", "var testingOnlyFailRead bool\n", "var testingOnlyFailRead bool\n\n//go:linkname simRand\nfunc simRand(b []byte) bool\n"},
	// Draws that a program can observe come from the seed; the runtime's own
	// (lock profiling, caches, per-M state) must not touch the seeded stream.
	{"runtime/rand.go", "	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()\n", "	mp.cheaprand = 0x2545f491\n	mp.cheaprand64 = 0x9e3779b97f4a7c15\n"},
	{"runtime/select.go", "		j := cheaprandn(uint32(norder + 1))", "		j := simCheapn(uint32(norder + 1))"},
	{"runtime/sema.go", "	s.ticket = cheaprand() | 1", "	s.ticket = simCheap() | 1"},
	// --- addresses (the order of maps keyed by pointers depends on them) --
	{"runtime/malloc.go", "	randomizeHeapBase = goexperiment.RandomizedHeapBase64 &&", "	randomizeHeapBase = false && goexperiment.RandomizedHeapBase64 &&"},
	// --- crashes ---------------------------------------------------------
	{"runtime/panic.go", "	systemstack(func() {\n		if isSecureMode() {\n			exit(2)\n		}\n\n		startpanic_m()\n", "	systemstack(func() {\n		simCrashDump()\n		if isSecureMode() {\n			exit(2)\n		}\n\n		startpanic_m()\n"},
	{"runtime/panic.go", "	systemstack(func() {\n		if startpanic_m() && msgs != nil {", "	systemstack(func() {\n		simCrashDump()\n		if startpanic_m() && msgs != nil {"},
	// --- sync: preemption points inside the primitives --------------------
	{"sync/mutex.go", "func (m *Mutex) Lock() {\n	m.mu.Lock()\n}", "func (m *Mutex) Lock() {\n	runtime_simYield()\n	m.mu.Lock()\n}\n\nfunc runtime_simYield()"},
	{"sync/mutex.go", "	return m.mu.TryLock()\n", "	runtime_simYield()\n	return m.mu.TryLock()\n"},
	{"sync/mutex.go", "	m.mu.Unlock()\n", "	m.mu.Unlock()\n	runtime_simYield()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n	runtime_simYield()\n"},
	{"sync/rwmutex.go", "		rw.rUnlockSlow(r)\n	}\n	if race.Enabled {\n		race.Enable()\n	}\n}", "		rw.rUnlockSlow(r)\n	}\n	if race.Enabled {\n		race.Enable()\n	}\n	runtime_simYield()\n}"},
	{"sync/waitgroup.go", "func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n	runtime_simYield()\n"},
	// --- network ---------------------------------------------------------
	{"net/dial.go", "	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n\n	// Shadow", "	ctx, cancel := d.dialCtx(ctx)\n	defer cancel()\n	if SimDial != nil {\n		return SimDial(ctx, network, address)\n	}\n\n	// Shadow"},
	{"net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n	if SimListen != nil {\n		return SimListen(network, address)\n	}\n"},
	// --- os --------------------------------------------------------------
	{"os/proc.go", "	runtime_beforeExit(code)\n", "	if SimExit != nil {\n		SimExit(code)\n	}\n	runtime_beforeExit(code)\n"},
	{"os/proc.go", "func runtime_beforeExit(exitCode int)", "// SimExit observes os.Exit in a simulation.\nvar SimExit func(code int)\n\nfunc runtime_beforeExit(exitCode int)"},
	{"os/signal/signal.go", "				enableSignal(n)\n\n", "				if Sim {\n					handlers.ref[n]++\n					return\n				}\n				enableSignal(n)\n\n"},
	{"os/signal/signal.go", "			if handlers.ref[n] == 0 {\n				disableSignal(n)\n", "			if handlers.ref[n] == 0 && !Sim {\n				disableSignal(n)\n"},
	{"os/signal/signal.go", "	handlers.Unlock()\n\n	signalWaitUntilIdle()\n", "	handlers.Unlock()\n\n	if !Sim {\n		signalWaitUntilIdle()\n	}\n"},
	{"os/signal/signal.go", "		action(n)\n	}\n", "		if !Sim {\n			action(n)\n		}\n	}\n"},
	{"os/signal/signal.go", "func process(sig os.Signal) {\n", "// Sim turns real signal delivery off.\nvar Sim bool\n\n// SimDeliver delivers sig as the runtime would and reports whether anyone was registered.\nfunc SimDeliver(sig os.Signal) bool {\n	n := signum(sig)\n	handlers.Lock()\n	found := false\n	for _, h := range handlers.m {\n		if h.want(n) {\n			found = true\n		}\n	}\n	handlers.Unlock()\n	process(sig)\n	return found\n}\n\n// SimNotified reports whether INT, TERM and QUIT all have a handler.\nfunc SimNotified() bool {\n	handlers.Lock()\n	defer handlers.Unlock()\n	return handlers.ref[2] > 0 && handlers.ref[15] > 0 && handlers.ref[3] > 0\n}\n\nfunc process(sig os.Signal) {\n"},
}

// added files: GOROOT/src path -> file under tools/patch
var added = map[string]string{
	"runtime/zsim.go": "runtime_zsim.go.txt",
	"net/zsim.go":     "net_zsim.go.txt",
}
