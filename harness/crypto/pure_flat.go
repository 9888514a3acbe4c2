package crypto

func oDerive(a int) string {
	d, err := GenerateKeyDerivation(oPublic(a), oSecret(a+6))
	return oTell(*d, err)
}
