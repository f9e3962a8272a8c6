package harness

import "testing"

func TestC01(t *testing.T) { checks["C01"].run(t) }
func TestC02(t *testing.T) { checks["C02"].run(t) }
func TestC03(t *testing.T) { checks["C03"].run(t) }
func TestC04(t *testing.T) { checks["C04"].run(t) }
func TestC05(t *testing.T) { checks["C05"].run(t) }
func TestC06(t *testing.T) { checks["C06"].run(t) }
func TestC07(t *testing.T) { checks["C07"].run(t) }
func TestC08(t *testing.T) { checks["C08"].run(t) }
func TestC09(t *testing.T) { checks["C09"].run(t) }
func TestC10(t *testing.T) { checks["C10"].run(t) }
func TestC11(t *testing.T) { checks["C11"].run(t) }
func TestC12(t *testing.T) { checks["C12"].run(t) }
func TestC13(t *testing.T) { checks["C13"].run(t) }
func TestC14(t *testing.T) { checks["C14"].run(t) }
func TestC15(t *testing.T) { checks["C15"].run(t) }
func TestC16(t *testing.T) { checks["C16"].run(t) }
func TestC17(t *testing.T) { checks["C17"].run(t) }
func TestC18(t *testing.T) { checks["C18"].run(t) }
func TestC19(t *testing.T) { checks["C19"].run(t) }
func TestC20(t *testing.T) { checks["C20"].run(t) }
func TestC21(t *testing.T) { checks["C21"].run(t) }
func TestC22(t *testing.T) { checks["C22"].run(t) }
func TestC23(t *testing.T) { checks["C23"].run(t) }
func TestC24(t *testing.T) { checks["C24"].run(t) }
func TestC25(t *testing.T) { checks["C25"].run(t) }
func TestC26(t *testing.T) { checks["C26"].run(t) }
