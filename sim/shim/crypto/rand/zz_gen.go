// Code generated by genshim. DO NOT EDIT.

package rand

import real "crypto/rand"

var Prime = real.Prime
