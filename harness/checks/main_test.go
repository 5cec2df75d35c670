package checks

import (
	"os"
	"testing"

	"verifharness/h"

	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_LOG") == "" {
		cdf.SetLogLevel(0)
		hdf5.SetLogLevel(0)
	}
	h.Main(m)
}
