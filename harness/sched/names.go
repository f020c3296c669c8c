package sched

// replaced when the code under test is instrumented
