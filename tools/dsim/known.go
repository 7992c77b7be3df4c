package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
	"regexp"
	"strings"
)

// knownEntry is one line of known-findings.txt. status "known" suppresses
// violations whose workload, class and message match; "fixed" suppresses nothing.
type knownEntry struct {
	Status   string `json:"status"`
	Property string `json:"property"`
	Workload string `json:"workload"`
	Class    string `json:"class"`
	Match    string `json:"match"` // regexp over the violation message
	What     string `json:"what"`
	re       *regexp.Regexp
}

func loadKnown(id string) (out []knownEntry) {
	f, err := os.Open(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "{") {
			continue
		}
		var k knownEntry
		must(json.Unmarshal([]byte(l), &k))
		if k.Property != id || k.Status != "known" {
			continue
		}
		k.re = regexp.MustCompile(k.Match)
		out = append(out, k)
	}
	return
}

func matchKnown(ks []knownEntry, wl string, r *Result) *knownEntry {
	for i := range ks {
		k := &ks[i]
		if k.Workload == wl && k.Class == r.Class && k.re.MatchString(r.Msg) {
			return k
		}
	}
	return nil
}
