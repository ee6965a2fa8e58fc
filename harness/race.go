package main

import (
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

var lineNo = regexp.MustCompile(`(:\d+)?( \+0x[0-9a-f]+)?$`)

// collectRaces reads the race detector's logs, deduplicates the reports by the
// functions on their stacks, and turns those that touch the library into
// violations.
func collectRaces(pc *ParentCtx) {
	files, _ := filepath.Glob(filepath.Join(pc.Base, "race*.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		for _, blk := range strings.Split(string(b), "==================") {
			if !strings.Contains(blk, "WARNING: DATA RACE") {
				continue
			}
			pc.Event("race_reports")
			var fns []string
			for _, l := range strings.Split(blk, "\n") {
				if strings.HasPrefix(l, "  ") && !strings.HasPrefix(l, "      ") && strings.Contains(l, "(") {
					fn := strings.TrimSpace(l)
					fns = append(fns, lineNo.ReplaceAllString(fn, ""))
				}
			}
			key := strings.Join(fns, "|")
			if seen[key] {
				continue
			}
			seen[key] = true
			if strings.Contains(blk, "github.com/greenpau/go-identity") {
				pc.Violate(-1, strings.Split(head(blk, 8000), "\n"), "data race: %s", oneLine(strings.Join(fns, " <- ")))
			} else {
				pc.Inconclusive("data race outside the library (harness defect): %s", head(blk, 3000))
			}
		}
	}
}
