package cmd

// VerifProgressBar exposes the progress text to the replay harness.
func VerifProgressBar(max int, position func() int, label string) func() string {
	return progressBar(max, position, label)
}
