// mc explores, exhaustively within stated bounds, what the decoders and the
// streamer do, and checks the properties on every execution.
package main

import "verif/run"

func main() {
	run.Main(
		&run.Check{ID: "C01", Units: c01Units},
		&run.Check{ID: "C02", Units: c02Units},
		&run.Check{ID: "C03", Units: c03Units},
		&run.Check{ID: "C04", Units: c04Units},
		&run.Check{ID: "C06", Units: c06Units},
		&run.Check{ID: "C07", Units: c07Units},
		&run.Check{ID: "C08", Units: c08Units},
		&run.Check{ID: "C09", Units: c09Units},
		&run.Check{ID: "C10", Units: c10Units},
		&run.Check{ID: "C11", Units: c11Units},
		&run.Check{ID: "C12", Units: c12Units},
		&run.Check{ID: "C13", Units: c13Units},
		&run.Check{ID: "C14", Units: c14Units},
		&run.Check{ID: "C15", Units: c15Units},
		&run.Check{ID: "C16", Units: c16Units},
		&run.Check{ID: "C17", Units: c17Units},
		&run.Check{ID: "C18", Units: c18Units},
		&run.Check{ID: "C19", Units: c19Units},
		&run.Check{ID: "C20", Units: c20Units},
	)
}
