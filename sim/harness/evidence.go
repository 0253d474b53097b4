//go:build go1.21

package harness

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
)

func writeEvidence(pr *Prop, tier string, base uint64, planned int, elapsed float64, st *Stats, hits map[int]uint32, det, mismatch int, samples []json.RawMessage, nviol int, knownHit, missing []string, path, pointsFile, note string, nw int) {
	if path == "" {
		return
	}
	var pts []struct {
		ID   int    `json:"id"`
		File string `json:"file"`
		Line int    `json:"line"`
	}
	if b, err := os.ReadFile(pointsFile); err == nil {
		json.Unmarshal(b, &pts)
	}
	byDir := map[string][2]int{}
	for _, p := range pts {
		d := filepath.Dir(p.File)
		c := byDir[d]
		c[1]++
		if hits[p.ID] > 0 {
			c[0]++
		}
		byDir[d] = c
	}
	reach := map[string]string{}
	for d, c := range byDir {
		if c[0] > 0 {
			reach[d] = fmt.Sprintf("%d of %d", c[0], c[1])
		}
	}
	if len(samples) > 4 {
		samples = samples[:4]
	}
	if samples == nil {
		samples = []json.RawMessage{}
	}
	perHour := 0
	if elapsed > 0 {
		perHour = int(float64(st.Runs) / elapsed * 3600)
	}
	kinds := sortedKeys(st.Faults)
	sort.Strings(kinds)
	cov := map[string]interface{}{
		"evaluations":         st.Runs,
		"distinct_nontrivial": len(st.Sigs),
		"rule": "one evaluation is one simulated run: a plan (initial file system, commands, schedule, faults) made from one seed and executed in the simulator with this property's oracle; " +
			"two runs count as distinct when the set of instrumented program points they reach, with hit counts bucketed by powers of four, differs; runs whose plan could not exercise the property are excluded as trivial",
		"samples":                samples,
		"planned_runs":           planned,
		"runs_nontrivial":        st.NonTrivial,
		"runs_per_hour":          perHour,
		"seeds_per_hour":         perHour,
		"simulated_commands":     st.Commands,
		"simulated_seconds":      float64(st.SimNanos) / 1e9,
		"system_calls":           st.Syscalls,
		"context_switches":       st.Switches,
		"short_transfers":        st.Short,
		"faults_injected":        st.Faults,
		"distinct_interleavings": len(st.Inter),
		"interleaving_measure":   "distinct sequences of which process ran at each switch",
		"program_steps":          st.Steps,
		"max_steps_one_command":  st.MaxSteps,
		"max_bytes_allocated_per_command_over_16_times_input": st.MaxAlloc,
		"situations_reached":          st.Probes,
		"situations_not_reached":      missing,
		"runs_executed_twice":         det,
		"double_execution_mismatches": mismatch,
		"program_points_reached":      reach,
		"workers":                     nw,
		"components_real":             "every diskii package (main, cmd, disk, dos3, prodos, supermon, basic, helpers, types, data), kong, and the Go standard library above the system-call layer",
		"components_simulated":        "system calls (file system, descriptors, pipes, page cache and power loss), process exit and kill, clock, random numbers and map order, getpid, scheduling of processes and goroutines",
		"known_findings_seen":         knownHit,
	}
	if pr.Stub != "" {
		cov["components_reference"] = pr.Stub
	}
	if note != "" {
		cov["note"] = note
	}
	ev := map[string]interface{}{
		"property":   pr.ID,
		"tier":       tier,
		"seed":       base,
		"level":      "exploration",
		"coverage":   cov,
		"wall_s":     elapsed,
		"violations": nviol,
		"assumptions": []string{
			"the simulated file system stands for a POSIX one: rename is atomic, fsync makes a file's data durable, namespace changes reach the disk in order",
			"exploration is a seeded search: it samples schedules, faults and inputs, it does not enumerate them",
		},
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(j, '\n'), 0o644); err != nil {
		hostErr("evidence: %v", err)
	}
}
