package sim

// counts holds the probes and faults of the current execution.
var counts = map[string]int64{}

// Count counts an occurrence of a fault or probe.
func Count(name string) { counts[name]++ }

// TakeCounts returns the counters and starts afresh.
func TakeCounts() map[string]int64 {
	c := counts
	counts = map[string]int64{}
	return c
}
