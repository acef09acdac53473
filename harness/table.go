package main

type mix struct {
	name   string
	weight float64
}

var scenarioTable = map[string]func(w *World){
	"broker": func(w *World) { scenConn(w, false) },
	"raw":    func(w *World) { scenConn(w, true) },
	"client": scenClient,
	"ring":   scenRing,
	"enc":    scenEncoder,
	"nego":   scenNego,
	"huge":   scenHuge,
}

// mixOf lists the scenarios that exercise a property.
func mixOf(prop string) []mix {
	switch prop {
	case "HUGE":
		return []mix{{"huge", 1}}
	case "C03", "C04":
		return []mix{{"ring", .9}, {"raw", .1}}
	case "C11":
		return []mix{{"nego", .9}, {"broker", .1}}
	case "C18":
		return []mix{{"enc", .9}, {"broker", .1}}
	case "C17":
		return []mix{{"ring", .2}, {"nego", .05}, {"client", .25}, {"broker", .35}, {"raw", .15}}
	case "C02":
		return []mix{{"broker", .7}, {"raw", .297}, {"huge", .003}}
	case "C10":
		return []mix{{"broker", .7}, {"raw", .2995}, {"huge", .0005}}
	case "C06":
		return []mix{{"broker", 1}}
	case "C12", "C13", "C14", "C16":
		return []mix{{"client", 1}}
	case "C15":
		return []mix{{"client", .6}, {"broker", .3}, {"raw", .1}}
	case "C20":
		return []mix{{"client", .3}, {"broker", .5}, {"raw", .2}}
	}
	return []mix{{"broker", .7}, {"raw", .3}}
}
