package harness

import "testing"

func FuzzC01(f *testing.F) { checks["C01"].fuzz(f) }
func FuzzC02(f *testing.F) { checks["C02"].fuzz(f) }
func FuzzC03(f *testing.F) { checks["C03"].fuzz(f) }
func FuzzC04(f *testing.F) { checks["C04"].fuzz(f) }
func FuzzC05(f *testing.F) { checks["C05"].fuzz(f) }
func FuzzC06(f *testing.F) { checks["C06"].fuzz(f) }
func FuzzC07(f *testing.F) { checks["C07"].fuzz(f) }
func FuzzC08(f *testing.F) { checks["C08"].fuzz(f) }
func FuzzC09(f *testing.F) { checks["C09"].fuzz(f) }
func FuzzC10(f *testing.F) { checks["C10"].fuzz(f) }
func FuzzC11(f *testing.F) { checks["C11"].fuzz(f) }
func FuzzC12(f *testing.F) { checks["C12"].fuzz(f) }
func FuzzC13(f *testing.F) { checks["C13"].fuzz(f) }
func FuzzC14(f *testing.F) { checks["C14"].fuzz(f) }
func FuzzC15(f *testing.F) { checks["C15"].fuzz(f) }
func FuzzC16(f *testing.F) { checks["C16"].fuzz(f) }
func FuzzC17(f *testing.F) { checks["C17"].fuzz(f) }
func FuzzC18(f *testing.F) { checks["C18"].fuzz(f) }
func FuzzC19(f *testing.F) { checks["C19"].fuzz(f) }
func FuzzC20(f *testing.F) { checks["C20"].fuzz(f) }
func FuzzC21(f *testing.F) { checks["C21"].fuzz(f) }
func FuzzC22(f *testing.F) { checks["C22"].fuzz(f) }
func FuzzC23(f *testing.F) { checks["C23"].fuzz(f) }
func FuzzC24(f *testing.F) { checks["C24"].fuzz(f) }
func FuzzC25(f *testing.F) { checks["C25"].fuzz(f) }
func FuzzC26(f *testing.F) { checks["C26"].fuzz(f) }
