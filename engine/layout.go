package main

import (
	"go/types"
	_ "unsafe" // for linkname
)

//go:linkname nextStdChunk time.nextStdChunk
func nextStdChunk(layout string) (prefix string, std int, suffix string)

// formatTime is the text of a time in a known layout, field by field: the
// layout "'2006" shows a quote and then what the layout "2006" shows.
func formatTime(t *Term, layout string) *Term {
	utc := t.op == OApp && t.str == "(time.Time).UTC"
	var ps []*Term
	for layout != "" {
		prefix, std, suffix := nextStdChunk(layout)
		ps = append(ps, mkStr(prefix))
		if std == 0 {
			break
		}
		chunk := layout[len(prefix) : len(layout)-len(suffix)]
		layout = suffix
		if utc {
			zone := map[string]string{
				"-0700": "+0000", "-07:00": "+00:00", "-07": "+00", "-070000": "+000000", "-07:00:00": "+00:00:00",
				"Z0700": "Z", "Z07:00": "Z", "Z07": "Z", "Z070000": "Z", "Z07:00:00": "Z", "MST": "UTC",
			}
			if z, ok := zone[chunk]; ok {
				ps = append(ps, mkStr(z))
				continue
			}
		}
		ps = append(ps, mk(OApp, types.Typ[types.String], "(time.Time).Format", 0, nil, nil, t, mkStr(chunk)))
	}
	return cat(ps...)
}
