package main

import (
	"bufio"
	"encoding/json"
	"os"
	"path/filepath"
	"strings"
)

var verifDir = "/verif"

// finding is one line of known_findings.jsonl.
type finding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	Status   string `json:"status"`
	What     string `json:"what"`
}

var findings []finding
var findingsLoaded bool

func loadFindings() []finding {
	if findingsLoaded {
		return findings
	}
	findingsLoaded = true
	f, err := os.Open(filepath.Join(verifDir, "known_findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	s.Buffer(nil, 1<<20)
	for s.Scan() {
		var x finding
		if strings.HasPrefix(s.Text(), "{") && json.Unmarshal(s.Bytes(), &x) == nil && x.Status == "open" {
			findings = append(findings, x)
		}
	}
	return findings
}

func knownFinding(prop, id string) bool {
	for _, x := range loadFindings() {
		if x.Property == prop && x.ID == id {
			return true
		}
	}
	return false
}
