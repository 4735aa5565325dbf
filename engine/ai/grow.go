package ai

import (
	"go/types"
	"sort"
)

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap is the capacity the Go runtime gives a slice grown to n elements.
func growCap(old, n, elem int) int {
	if elem == 0 {
		return n
	}
	k := n
	if n <= 2*old {
		if old < 256 {
			k = 2 * old
		} else {
			for k = old; k < n; {
				k += (k + 3*256) / 4
			}
		}
	}
	b := k * elem
	if i := sort.SearchInts(sizeClasses, b); i < len(sizeClasses) {
		b = sizeClasses[i]
	} else {
		b = (b + 8191) &^ 8191
	}
	return b / elem
}
