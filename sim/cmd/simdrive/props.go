package main

// share is one scenario a property is searched with.
type share struct {
	scn   string
	race  bool
	runs  int // in the quick tier
	chunk int
}

const thoroughScale = 20

// props says which scenarios decide a property. A scenario checks every
// property it can observe; a check only reports its own.
var props = map[string][]share{
	"C01": {{"lis", false, 800000, 5000}, {"lis", true, 60000, 2000}},
	"C02": {{"lis", false, 800000, 5000}, {"lis", true, 60000, 2000}},
	"C03": {{"lis", false, 800000, 5000}, {"lis", true, 60000, 2000}},
	"C04": {{"lis", false, 800000, 5000}, {"lis", true, 60000, 2000}},
	"C05": {{"lis", false, 800000, 5000}, {"lis", true, 60000, 2000}},
	"C06": {{"lis", false, 800000, 5000}, {"lis", true, 60000, 2000}},
	"C07": {{"lisleak", false, 60000, 500}, {"lis", false, 100000, 5000}},
	"C10": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C11": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C12": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C13": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C14": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C15": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C16": {{"goji", false, 160000, 500}, {"goji", true, 24000, 500}},
	"C17": {{"grc", false, 120000, 500}, {"grc", true, 24000, 500}},
	"C50": {{"goji", false, 160000, 500}, {"goji", true, 12000, 500}},
	"C51": {{"goji", false, 160000, 500}, {"goji", true, 12000, 500}},
	"C20": {{"mux", false, 400000, 2000}, {"mux", true, 60000, 1000}, {"nest", false, 200000, 2000}, {"nest", true, 24000, 1000}, {"scale", false, 16000, 250}, {"scale", true, 2000, 100}},
	"C21": {{"mux", false, 400000, 2000}, {"mux", true, 60000, 1000}, {"nest", false, 200000, 2000}, {"nest", true, 24000, 1000}, {"scale", false, 16000, 250}, {"scale", true, 2000, 100}},
	"C22": {{"mux", false, 400000, 2000}, {"mux", true, 60000, 1000}, {"nest", false, 200000, 2000}, {"nest", true, 24000, 1000}, {"scale", false, 16000, 250}, {"scale", true, 2000, 100}},
	"C23": {{"mux", false, 400000, 2000}, {"mux", true, 60000, 1000}, {"nest", false, 200000, 2000}, {"nest", true, 24000, 1000}, {"scale", false, 16000, 250}, {"scale", true, 2000, 100}, {"mw", false, 40000, 1000}},
	"C24": {{"mux", false, 400000, 2000}, {"mux", true, 60000, 1000}, {"nest", false, 240000, 2000}, {"nest", true, 24000, 1000}},
	"C30": {{"mw", false, 240000, 1000}, {"mw", true, 24000, 500}},
	"C31": {{"mw", false, 240000, 1000}, {"mw", true, 24000, 500}, {"proc", false, 1200, 25}},
	"C32": {{"mw", false, 240000, 1000}, {"mw", true, 24000, 500}},
	"C33": {{"mw", false, 240000, 1000}, {"mw", true, 24000, 500}},
	"C40": {{"mw", false, 240000, 1000}, {"mw", true, 24000, 500}},
}

type comp struct{ real, stub []string }

var comps = map[string]comp{
	"proc":    {[]string{"web/middleware (RequestID, and all that happens when a program starts)", "the processes, which are real"}, []string{"os.Hostname and crypto/rand, which say what the plan wants them to"}},
	"grc":     {[]string{"graceful (every file built on Linux)", "graceful/listener", "net/http server", "os/signal's registry and delivery to channels", "sync, time and context of the standard library, on a simulated scheduler and clock"}, []string{"listening sockets and connections (in memory, fault injecting), also those of net.Listen", "clients (by TLS: crypto/tls)", "signal generation"}},
	"goji":    {[]string{"goji (Serve, ServeTLS, ServeListener, DefaultMux)", "bind", "web", "web/middleware (default stack)", "graceful (every file built on Linux)", "graceful/listener", "net/http server", "os/signal's registry and delivery to channels", "sync, time and context of the standard library, on a simulated scheduler and clock"}, []string{"listening sockets and connections (in memory, fault injecting)", "clients", "signal generation", "Einhorn, systemd: variables, descriptors, control socket", "TLS clients (crypto/tls)", "os.Exit (ends the simulated program)"}},
	"mw":      {[]string{"web/middleware (every file)", "web/mutil (the file built for this Go version)", "web", "sync (except Pool) and time of the standard library, on a simulated scheduler and clock"}, []string{"net/http server (requests are handed to the mux directly)", "the clients' response writers (net/http's semantics, with and without Flusher, Hijacker, ReaderFrom and Pusher; fault injecting)", "sync.Pool (a seeded coin decides hits and misses)"}},
	"mux":     {[]string{"web (every file)", "web/middleware (Router, SubRouter, AutomaticOptions, EnvInit)", "sync (except Pool) and time of the standard library, on a simulated scheduler and clock"}, []string{"net/http server (requests are handed to the mux directly)", "sync.Pool (a seeded coin decides hits and misses)"}},
	"nest":    {[]string{"web (every file)", "web/middleware (Router, SubRouter, AutomaticOptions, EnvInit)", "sync (except Pool) and time of the standard library, on a simulated scheduler and clock"}, []string{"net/http server (requests are handed to the mux directly)", "sync.Pool (a seeded coin decides hits and misses)"}},
	"scale":   {[]string{"web (every file)", "sync (except Pool) and time of the standard library, on a simulated scheduler and clock"}, []string{"net/http server (requests are handed to the mux directly)", "sync.Pool (a seeded coin decides hits and misses)"}},
	"lis":     {[]string{"graceful/listener (every file)", "sync, time and context of the standard library, on a simulated scheduler and clock"}, []string{"the listening socket and its connections (in memory, fault injecting)", "the server that uses the listener (seeded acceptors, owners and rogue users)"}},
	"lisleak": {[]string{"graceful/listener (every file)", "the garbage collector"}, []string{"the listening socket and its connections (in memory, fault injecting)", "the server that uses the listener (seeded acceptors, owners and rogue users)"}},
}

func uniq(ss []string) []string {
	var out []string
	seen := map[string]bool{}
	for _, s := range ss {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func realOf(sh []share) []string {
	var out []string
	for _, s := range sh {
		out = append(out, comps[s.scn].real...)
	}
	return uniq(out)
}

func stubOf(sh []share) []string {
	out := []string{"goroutine scheduler (seeded)", "clock and timers (simulated time)", "select, map iteration and math/rand randomness (seeded)"}
	for _, s := range sh {
		out = append(out, comps[s.scn].stub...)
	}
	return uniq(out)
}
