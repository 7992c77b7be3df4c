package main

type property struct {
	stages            []stage
	quickS, thoroughS float64
	real, stub        []string
	assume            []string
}

var properties = map[string]*property{}

func prop(id string, real, stub []string, stages ...stage) *property {
	p := &property{stages: stages, quickS: 25, thoroughS: 600, real: real, stub: stub}
	properties[id] = p
	return p
}

func s(wl string) stage                 { return stage{wl: wl, share: 1} }
func sw(wl string, share float64) stage { return stage{wl: wl, share: share} }
func sr(wl string) stage                { return stage{wl: wl, race: true, share: 0.5} }

var stubCommon = []string{"Go runtime scheduler decisions, clock, timers, randomness (patched runtime)"}

func init() {
	prop("C01", []string{"shutdown"}, stubCommon, s("C01"), sr("C01"))
	prop("C02", []string{"shutdown"}, stubCommon, s("C02"), sr("C02"))
	prop("C03", []string{"shutdown", "ctx", "os/signal (relay to channels)"}, append(stubCommon, "OS signal delivery"), s("C03"), sr("C03"))
	prop("C16", []string{"utils/sync.Map", "enc (Marshal/Unmarshal of the map)"}, stubCommon, s("C16"), sr("C16"))
	prop("C17", []string{"utils/sync.Mutex", "utils/sync.MetricsMutex"}, stubCommon, s("C17"), sr("C17"))
	prop("C18", []string{"utils/lists.Set"}, stubCommon, s("C18"), sr("C18"))
	prop("C12", []string{"utils/caches.RequestCache", "utils/caches.LRU"}, append(stubCommon, "the loader"), s("C12"), sr("C12"))
	prop("C13", []string{"utils/caches.RequestCache", "utils/caches.LRU"}, append(stubCommon, "the loader"), s("C13"), sr("C13"))
	prop("C14", []string{"utils/caches.LRU"}, append(stubCommon, "the loader"), s("C14"), sr("C14"))
	prop("C15", []string{"utils/caches.Mem"}, append(stubCommon, "the loader"), s("C15"), sr("C15"))
	prop("C19", []string{"utils/prom", "utils/sync.Map"}, append(stubCommon, "the scraping client (a writer that stalls or fails)"), s("C19"), sw("C19reg", 0.3), sr("C19"), sr("C19reg"))
	prop("C20", []string{"storage", "enc"}, stubCommon, s("C20"), sr("C20"))
	prop("C21", []string{"enc.Pipe", "ctx"}, stubCommon, s("C21"))
	prop("C22", []string{"utils.ReadAll", "ctx"}, append(stubCommon, "the reader"), s("C22"), sr("C22"))
	prop("C27", []string{"test.BufferedRWC"}, stubCommon, s("C27"), sr("C27"))
	prop("C23", []string{"ctx", "context"}, stubCommon, s("C23"), sr("C23"))
	prop("C24", []string{"ctx"}, stubCommon, s("C24"), sr("C24"))
	prop("C25", []string{"ctx/log", "ctx", "log/slog"}, append(stubCommon, "the log writers"), s("C25"), sr("C25"))
	prop("C26", []string{"enc", "ctx/log"}, stubCommon, s("C26"), sr("C26"))
	prop("C32", []string{"enc", "api", "api/openapi"}, append(stubCommon, "map iteration order and hash seeds"), s("C32"))
	prop("C04", []string{"http.Server", "shutdown", "ctx", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C04"), sr("C04"))
	prop("C05", []string{"http.Server", "api", "enc", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C05"), sr("C05"))
	prop("C06", []string{"http.Server", "api", "enc", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C06"), sr("C06"))
	prop("C07", []string{"http.Server", "api", "enc", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C07"), sr("C07"))
	prop("C30", []string{"http.Server", "api", "enc", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C30"), sr("C30"))
	prop("C08", []string{"http/ws", "http.Server", "enc", "net/http server", "x/net/websocket"}, append(stubCommon, "TCP network", "websocket clients"), s("C08"), sr("C08"))
	prop("C09", []string{"http/ws", "http.Server", "enc", "net/http server", "x/net/websocket"}, append(stubCommon, "TCP network", "websocket clients"), s("C09"), sr("C09"))
	prop("C10", []string{"http/ws", "http.Server", "enc", "net/http server", "x/net/websocket"}, append(stubCommon, "TCP network", "websocket clients"), s("C10"), sr("C10"))
	prop("C11", []string{"http/ws", "http.Server", "shutdown", "enc", "net/http server", "x/net/websocket"}, append(stubCommon, "TCP network", "websocket clients"), s("C11"), sr("C11"))
	prop("C28", []string{"http.Client", "api", "enc", "net/http client"}, append(stubCommon, "TCP network", "HTTP servers"), s("C28"), sr("C28"))
	prop("C29", []string{"http.Server", "api/openapi", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C29"), sr("C29"))
	prop("C31", []string{"http.Server", "utils/prom", "net/http server"}, append(stubCommon, "TCP network", "HTTP clients"), s("C31"), sr("C31"))
}
