//go:build mcsched

package checks

import "verif/mc/sched"

// initPoints is evaluated before the other variables of this package (files are
// initialised in the order of their names): points passed by the library's own
// initialisation.
var initPoints = sched.Unmanaged()
