package sym

// RunMain calls the main function of a command, within the executor; it gives the exit status.
func RunMain(path string) int { return runMain(path) }

// Exit ends the command that runs, within the executor.
func Exit(code int) { exit(code) }

func runMain(path string) int { panic("symbolic only") }

func exit(code int) { panic("symbolic only") }
