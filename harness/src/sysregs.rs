// The AArch64 system registers: name, op0/op1/CRn/CRm/op2, and the constant of that name.
use gdbstub_arch::aarch64::reg::id::AArch64RegId as R;
#[rustfmt::skip]
pub static SYS: [(&str, u16, R); 872] = [
    ("OSDTRRX_EL1", 0x8002, R::OSDTRRX_EL1),
    ("DBGBVR0_EL1", 0x8004, R::DBGBVR0_EL1),
    ("DBGBCR0_EL1", 0x8005, R::DBGBCR0_EL1),
    ("DBGWVR0_EL1", 0x8006, R::DBGWVR0_EL1),
    ("DBGWCR0_EL1", 0x8007, R::DBGWCR0_EL1),
    ("DBGBVR1_EL1", 0x800c, R::DBGBVR1_EL1),
    ("DBGBCR1_EL1", 0x800d, R::DBGBCR1_EL1),
    ("DBGWVR1_EL1", 0x800e, R::DBGWVR1_EL1),
    ("DBGWCR1_EL1", 0x800f, R::DBGWCR1_EL1),
    ("MDCCINT_EL1", 0x8010, R::MDCCINT_EL1),
    ("MDSCR_EL1", 0x8012, R::MDSCR_EL1),
    ("DBGBVR2_EL1", 0x8014, R::DBGBVR2_EL1),
    ("DBGBCR2_EL1", 0x8015, R::DBGBCR2_EL1),
    ("DBGWVR2_EL1", 0x8016, R::DBGWVR2_EL1),
    ("DBGWCR2_EL1", 0x8017, R::DBGWCR2_EL1),
    ("OSDTRTX_EL1", 0x801a, R::OSDTRTX_EL1),
    ("DBGBVR3_EL1", 0x801c, R::DBGBVR3_EL1),
    ("DBGBCR3_EL1", 0x801d, R::DBGBCR3_EL1),
    ("DBGWVR3_EL1", 0x801e, R::DBGWVR3_EL1),
    ("DBGWCR3_EL1", 0x801f, R::DBGWCR3_EL1),
    ("DBGBVR4_EL1", 0x8024, R::DBGBVR4_EL1),
    ("DBGBCR4_EL1", 0x8025, R::DBGBCR4_EL1),
    ("DBGWVR4_EL1", 0x8026, R::DBGWVR4_EL1),
    ("DBGWCR4_EL1", 0x8027, R::DBGWCR4_EL1),
    ("DBGBVR5_EL1", 0x802c, R::DBGBVR5_EL1),
    ("DBGBCR5_EL1", 0x802d, R::DBGBCR5_EL1),
    ("DBGWVR5_EL1", 0x802e, R::DBGWVR5_EL1),
    ("DBGWCR5_EL1", 0x802f, R::DBGWCR5_EL1),
    ("OSECCR_EL1", 0x8032, R::OSECCR_EL1),
    ("DBGBVR6_EL1", 0x8034, R::DBGBVR6_EL1),
    ("DBGBCR6_EL1", 0x8035, R::DBGBCR6_EL1),
    ("DBGWVR6_EL1", 0x8036, R::DBGWVR6_EL1),
    ("DBGWCR6_EL1", 0x8037, R::DBGWCR6_EL1),
    ("DBGBVR7_EL1", 0x803c, R::DBGBVR7_EL1),
    ("DBGBCR7_EL1", 0x803d, R::DBGBCR7_EL1),
    ("DBGWVR7_EL1", 0x803e, R::DBGWVR7_EL1),
    ("DBGWCR7_EL1", 0x803f, R::DBGWCR7_EL1),
    ("DBGBVR8_EL1", 0x8044, R::DBGBVR8_EL1),
    ("DBGBCR8_EL1", 0x8045, R::DBGBCR8_EL1),
    ("DBGWVR8_EL1", 0x8046, R::DBGWVR8_EL1),
    ("DBGWCR8_EL1", 0x8047, R::DBGWCR8_EL1),
    ("DBGBVR9_EL1", 0x804c, R::DBGBVR9_EL1),
    ("DBGBCR9_EL1", 0x804d, R::DBGBCR9_EL1),
    ("DBGWVR9_EL1", 0x804e, R::DBGWVR9_EL1),
    ("DBGWCR9_EL1", 0x804f, R::DBGWCR9_EL1),
    ("DBGBVR10_EL1", 0x8054, R::DBGBVR10_EL1),
    ("DBGBCR10_EL1", 0x8055, R::DBGBCR10_EL1),
    ("DBGWVR10_EL1", 0x8056, R::DBGWVR10_EL1),
    ("DBGWCR10_EL1", 0x8057, R::DBGWCR10_EL1),
    ("DBGBVR11_EL1", 0x805c, R::DBGBVR11_EL1),
    ("DBGBCR11_EL1", 0x805d, R::DBGBCR11_EL1),
    ("DBGWVR11_EL1", 0x805e, R::DBGWVR11_EL1),
    ("DBGWCR11_EL1", 0x805f, R::DBGWCR11_EL1),
    ("DBGBVR12_EL1", 0x8064, R::DBGBVR12_EL1),
    ("DBGBCR12_EL1", 0x8065, R::DBGBCR12_EL1),
    ("DBGWVR12_EL1", 0x8066, R::DBGWVR12_EL1),
    ("DBGWCR12_EL1", 0x8067, R::DBGWCR12_EL1),
    ("DBGBVR13_EL1", 0x806c, R::DBGBVR13_EL1),
    ("DBGBCR13_EL1", 0x806d, R::DBGBCR13_EL1),
    ("DBGWVR13_EL1", 0x806e, R::DBGWVR13_EL1),
    ("DBGWCR13_EL1", 0x806f, R::DBGWCR13_EL1),
    ("DBGBVR14_EL1", 0x8074, R::DBGBVR14_EL1),
    ("DBGBCR14_EL1", 0x8075, R::DBGBCR14_EL1),
    ("DBGWVR14_EL1", 0x8076, R::DBGWVR14_EL1),
    ("DBGWCR14_EL1", 0x8077, R::DBGWCR14_EL1),
    ("DBGBVR15_EL1", 0x807c, R::DBGBVR15_EL1),
    ("DBGBCR15_EL1", 0x807d, R::DBGBCR15_EL1),
    ("DBGWVR15_EL1", 0x807e, R::DBGWVR15_EL1),
    ("DBGWCR15_EL1", 0x807f, R::DBGWCR15_EL1),
    ("MDRAR_EL1", 0x8080, R::MDRAR_EL1),
    ("OSLAR_EL1", 0x8084, R::OSLAR_EL1),
    ("OSLSR_EL1", 0x808c, R::OSLSR_EL1),
    ("OSDLR_EL1", 0x809c, R::OSDLR_EL1),
    ("DBGPRCR_EL1", 0x80a4, R::DBGPRCR_EL1),
    ("DBGCLAIMSET_EL1", 0x83c6, R::DBGCLAIMSET_EL1),
    ("DBGCLAIMCLR_EL1", 0x83ce, R::DBGCLAIMCLR_EL1),
    ("DBGAUTHSTATUS_EL1", 0x83f6, R::DBGAUTHSTATUS_EL1),
    ("TRCTRACEIDR", 0x8801, R::TRCTRACEIDR),
    ("TRCVICTLR", 0x8802, R::TRCVICTLR),
    ("TRCSEQEVR0", 0x8804, R::TRCSEQEVR0),
    ("TRCCNTRLDVR0", 0x8805, R::TRCCNTRLDVR0),
    ("TRCIDR8", 0x8806, R::TRCIDR8),
    ("TRCIMSPEC0", 0x8807, R::TRCIMSPEC0),
    ("TRCPRGCTLR", 0x8808, R::TRCPRGCTLR),
    ("TRCQCTLR", 0x8809, R::TRCQCTLR),
    ("TRCVIIECTLR", 0x880a, R::TRCVIIECTLR),
    ("TRCSEQEVR1", 0x880c, R::TRCSEQEVR1),
    ("TRCCNTRLDVR1", 0x880d, R::TRCCNTRLDVR1),
    ("TRCIDR9", 0x880e, R::TRCIDR9),
    ("TRCIMSPEC1", 0x880f, R::TRCIMSPEC1),
    ("TRCVISSCTLR", 0x8812, R::TRCVISSCTLR),
    ("TRCSEQEVR2", 0x8814, R::TRCSEQEVR2),
    ("TRCCNTRLDVR2", 0x8815, R::TRCCNTRLDVR2),
    ("TRCIDR10", 0x8816, R::TRCIDR10),
    ("TRCIMSPEC2", 0x8817, R::TRCIMSPEC2),
    ("TRCSTATR", 0x8818, R::TRCSTATR),
    ("TRCVIPCSSCTLR", 0x881a, R::TRCVIPCSSCTLR),
    ("TRCCNTRLDVR3", 0x881d, R::TRCCNTRLDVR3),
    ("TRCIDR11", 0x881e, R::TRCIDR11),
    ("TRCIMSPEC3", 0x881f, R::TRCIMSPEC3),
    ("TRCCONFIGR", 0x8820, R::TRCCONFIGR),
    ("TRCCNTCTLR0", 0x8825, R::TRCCNTCTLR0),
    ("TRCIDR12", 0x8826, R::TRCIDR12),
    ("TRCIMSPEC4", 0x8827, R::TRCIMSPEC4),
    ("TRCCNTCTLR1", 0x882d, R::TRCCNTCTLR1),
    ("TRCIDR13", 0x882e, R::TRCIDR13),
    ("TRCIMSPEC5", 0x882f, R::TRCIMSPEC5),
    ("TRCAUXCTLR", 0x8830, R::TRCAUXCTLR),
    ("TRCSEQRSTEVR", 0x8834, R::TRCSEQRSTEVR),
    ("TRCCNTCTLR2", 0x8835, R::TRCCNTCTLR2),
    ("TRCIMSPEC6", 0x8837, R::TRCIMSPEC6),
    ("TRCSEQSTR", 0x883c, R::TRCSEQSTR),
    ("TRCCNTCTLR3", 0x883d, R::TRCCNTCTLR3),
    ("TRCIMSPEC7", 0x883f, R::TRCIMSPEC7),
    ("TRCEVENTCTL0R", 0x8840, R::TRCEVENTCTL0R),
    ("TRCEXTINSELR0", 0x8844, R::TRCEXTINSELR0),
    ("TRCCNTVR0", 0x8845, R::TRCCNTVR0),
    ("TRCIDR0", 0x8847, R::TRCIDR0),
    ("TRCEVENTCTL1R", 0x8848, R::TRCEVENTCTL1R),
    ("TRCEXTINSELR1", 0x884c, R::TRCEXTINSELR1),
    ("TRCCNTVR1", 0x884d, R::TRCCNTVR1),
    ("TRCIDR1", 0x884f, R::TRCIDR1),
    ("TRCRSR", 0x8850, R::TRCRSR),
    ("TRCEXTINSELR2", 0x8854, R::TRCEXTINSELR2),
    ("TRCCNTVR2", 0x8855, R::TRCCNTVR2),
    ("TRCIDR2", 0x8857, R::TRCIDR2),
    ("TRCSTALLCTLR", 0x8858, R::TRCSTALLCTLR),
    ("TRCEXTINSELR3", 0x885c, R::TRCEXTINSELR3),
    ("TRCCNTVR3", 0x885d, R::TRCCNTVR3),
    ("TRCIDR3", 0x885f, R::TRCIDR3),
    ("TRCTSCTLR", 0x8860, R::TRCTSCTLR),
    ("TRCIDR4", 0x8867, R::TRCIDR4),
    ("TRCSYNCPR", 0x8868, R::TRCSYNCPR),
    ("TRCIDR5", 0x886f, R::TRCIDR5),
    ("TRCCCCTLR", 0x8870, R::TRCCCCTLR),
    ("TRCIDR6", 0x8877, R::TRCIDR6),
    ("TRCBBCTLR", 0x8878, R::TRCBBCTLR),
    ("TRCIDR7", 0x887f, R::TRCIDR7),
    ("TRCRSCTLR16", 0x8881, R::TRCRSCTLR16),
    ("TRCSSCCR0", 0x8882, R::TRCSSCCR0),
    ("TRCSSPCICR0", 0x8883, R::TRCSSPCICR0),
    ("TRCRSCTLR17", 0x8889, R::TRCRSCTLR17),
    ("TRCSSCCR1", 0x888a, R::TRCSSCCR1),
    ("TRCSSPCICR1", 0x888b, R::TRCSSPCICR1),
    ("TRCOSLSR", 0x888c, R::TRCOSLSR),
    ("TRCRSCTLR2", 0x8890, R::TRCRSCTLR2),
    ("TRCRSCTLR18", 0x8891, R::TRCRSCTLR18),
    ("TRCSSCCR2", 0x8892, R::TRCSSCCR2),
    ("TRCSSPCICR2", 0x8893, R::TRCSSPCICR2),
    ("TRCRSCTLR3", 0x8898, R::TRCRSCTLR3),
    ("TRCRSCTLR19", 0x8899, R::TRCRSCTLR19),
    ("TRCSSCCR3", 0x889a, R::TRCSSCCR3),
    ("TRCSSPCICR3", 0x889b, R::TRCSSPCICR3),
    ("TRCRSCTLR4", 0x88a0, R::TRCRSCTLR4),
    ("TRCRSCTLR20", 0x88a1, R::TRCRSCTLR20),
    ("TRCSSCCR4", 0x88a2, R::TRCSSCCR4),
    ("TRCSSPCICR4", 0x88a3, R::TRCSSPCICR4),
    ("TRCRSCTLR5", 0x88a8, R::TRCRSCTLR5),
    ("TRCRSCTLR21", 0x88a9, R::TRCRSCTLR21),
    ("TRCSSCCR5", 0x88aa, R::TRCSSCCR5),
    ("TRCSSPCICR5", 0x88ab, R::TRCSSPCICR5),
    ("TRCRSCTLR6", 0x88b0, R::TRCRSCTLR6),
    ("TRCRSCTLR22", 0x88b1, R::TRCRSCTLR22),
    ("TRCSSCCR6", 0x88b2, R::TRCSSCCR6),
    ("TRCSSPCICR6", 0x88b3, R::TRCSSPCICR6),
    ("TRCRSCTLR7", 0x88b8, R::TRCRSCTLR7),
    ("TRCRSCTLR23", 0x88b9, R::TRCRSCTLR23),
    ("TRCSSCCR7", 0x88ba, R::TRCSSCCR7),
    ("TRCSSPCICR7", 0x88bb, R::TRCSSPCICR7),
    ("TRCRSCTLR8", 0x88c0, R::TRCRSCTLR8),
    ("TRCRSCTLR24", 0x88c1, R::TRCRSCTLR24),
    ("TRCSSCSR0", 0x88c2, R::TRCSSCSR0),
    ("TRCRSCTLR9", 0x88c8, R::TRCRSCTLR9),
    ("TRCRSCTLR25", 0x88c9, R::TRCRSCTLR25),
    ("TRCSSCSR1", 0x88ca, R::TRCSSCSR1),
    ("TRCRSCTLR10", 0x88d0, R::TRCRSCTLR10),
    ("TRCRSCTLR26", 0x88d1, R::TRCRSCTLR26),
    ("TRCSSCSR2", 0x88d2, R::TRCSSCSR2),
    ("TRCRSCTLR11", 0x88d8, R::TRCRSCTLR11),
    ("TRCRSCTLR27", 0x88d9, R::TRCRSCTLR27),
    ("TRCSSCSR3", 0x88da, R::TRCSSCSR3),
    ("TRCRSCTLR12", 0x88e0, R::TRCRSCTLR12),
    ("TRCRSCTLR28", 0x88e1, R::TRCRSCTLR28),
    ("TRCSSCSR4", 0x88e2, R::TRCSSCSR4),
    ("TRCRSCTLR13", 0x88e8, R::TRCRSCTLR13),
    ("TRCRSCTLR29", 0x88e9, R::TRCRSCTLR29),
    ("TRCSSCSR5", 0x88ea, R::TRCSSCSR5),
    ("TRCRSCTLR14", 0x88f0, R::TRCRSCTLR14),
    ("TRCRSCTLR30", 0x88f1, R::TRCRSCTLR30),
    ("TRCSSCSR6", 0x88f2, R::TRCSSCSR6),
    ("TRCRSCTLR15", 0x88f8, R::TRCRSCTLR15),
    ("TRCRSCTLR31", 0x88f9, R::TRCRSCTLR31),
    ("TRCSSCSR7", 0x88fa, R::TRCSSCSR7),
    ("TRCACVR0", 0x8900, R::TRCACVR0),
    ("TRCACVR8", 0x8901, R::TRCACVR8),
    ("TRCACATR0", 0x8902, R::TRCACATR0),
    ("TRCACATR8", 0x8903, R::TRCACATR8),
    ("TRCACVR1", 0x8910, R::TRCACVR1),
    ("TRCACVR9", 0x8911, R::TRCACVR9),
    ("TRCACATR1", 0x8912, R::TRCACATR1),
    ("TRCACATR9", 0x8913, R::TRCACATR9),
    ("TRCACVR2", 0x8920, R::TRCACVR2),
    ("TRCACVR10", 0x8921, R::TRCACVR10),
    ("TRCACATR2", 0x8922, R::TRCACATR2),
    ("TRCACATR10", 0x8923, R::TRCACATR10),
    ("TRCACVR3", 0x8930, R::TRCACVR3),
    ("TRCACVR11", 0x8931, R::TRCACVR11),
    ("TRCACATR3", 0x8932, R::TRCACATR3),
    ("TRCACATR11", 0x8933, R::TRCACATR11),
    ("TRCACVR4", 0x8940, R::TRCACVR4),
    ("TRCACVR12", 0x8941, R::TRCACVR12),
    ("TRCACATR4", 0x8942, R::TRCACATR4),
    ("TRCACATR12", 0x8943, R::TRCACATR12),
    ("TRCACVR5", 0x8950, R::TRCACVR5),
    ("TRCACVR13", 0x8951, R::TRCACVR13),
    ("TRCACATR5", 0x8952, R::TRCACATR5),
    ("TRCACATR13", 0x8953, R::TRCACATR13),
    ("TRCACVR6", 0x8960, R::TRCACVR6),
    ("TRCACVR14", 0x8961, R::TRCACVR14),
    ("TRCACATR6", 0x8962, R::TRCACATR6),
    ("TRCACATR14", 0x8963, R::TRCACATR14),
    ("TRCACVR7", 0x8970, R::TRCACVR7),
    ("TRCACVR15", 0x8971, R::TRCACVR15),
    ("TRCACATR7", 0x8972, R::TRCACATR7),
    ("TRCACATR15", 0x8973, R::TRCACATR15),
    ("TRCCIDCVR0", 0x8980, R::TRCCIDCVR0),
    ("TRCVMIDCVR0", 0x8981, R::TRCVMIDCVR0),
    ("TRCCIDCCTLR0", 0x8982, R::TRCCIDCCTLR0),
    ("TRCCIDCCTLR1", 0x898a, R::TRCCIDCCTLR1),
    ("TRCCIDCVR1", 0x8990, R::TRCCIDCVR1),
    ("TRCVMIDCVR1", 0x8991, R::TRCVMIDCVR1),
    ("TRCVMIDCCTLR0", 0x8992, R::TRCVMIDCCTLR0),
    ("TRCVMIDCCTLR1", 0x899a, R::TRCVMIDCCTLR1),
    ("TRCCIDCVR2", 0x89a0, R::TRCCIDCVR2),
    ("TRCVMIDCVR2", 0x89a1, R::TRCVMIDCVR2),
    ("TRCCIDCVR3", 0x89b0, R::TRCCIDCVR3),
    ("TRCVMIDCVR3", 0x89b1, R::TRCVMIDCVR3),
    ("TRCCIDCVR4", 0x89c0, R::TRCCIDCVR4),
    ("TRCVMIDCVR4", 0x89c1, R::TRCVMIDCVR4),
    ("TRCCIDCVR5", 0x89d0, R::TRCCIDCVR5),
    ("TRCVMIDCVR5", 0x89d1, R::TRCVMIDCVR5),
    ("TRCCIDCVR6", 0x89e0, R::TRCCIDCVR6),
    ("TRCVMIDCVR6", 0x89e1, R::TRCVMIDCVR6),
    ("TRCCIDCVR7", 0x89f0, R::TRCCIDCVR7),
    ("TRCVMIDCVR7", 0x89f1, R::TRCVMIDCVR7),
    ("TRCDEVID", 0x8b97, R::TRCDEVID),
    ("TRCCLAIMSET", 0x8bc6, R::TRCCLAIMSET),
    ("TRCCLAIMCLR", 0x8bce, R::TRCCLAIMCLR),
    ("TRCAUTHSTATUS", 0x8bf6, R::TRCAUTHSTATUS),
    ("TRCDEVARCH", 0x8bfe, R::TRCDEVARCH),
    ("BRBINF0_EL1", 0x8c00, R::BRBINF0_EL1),
    ("BRBSRC0_EL1", 0x8c01, R::BRBSRC0_EL1),
    ("BRBTGT0_EL1", 0x8c02, R::BRBTGT0_EL1),
    ("BRBINF16_EL1", 0x8c04, R::BRBINF16_EL1),
    ("BRBSRC16_EL1", 0x8c05, R::BRBSRC16_EL1),
    ("BRBTGT16_EL1", 0x8c06, R::BRBTGT16_EL1),
    ("BRBINF1_EL1", 0x8c08, R::BRBINF1_EL1),
    ("BRBSRC1_EL1", 0x8c09, R::BRBSRC1_EL1),
    ("BRBTGT1_EL1", 0x8c0a, R::BRBTGT1_EL1),
    ("BRBINF17_EL1", 0x8c0c, R::BRBINF17_EL1),
    ("BRBSRC17_EL1", 0x8c0d, R::BRBSRC17_EL1),
    ("BRBTGT17_EL1", 0x8c0e, R::BRBTGT17_EL1),
    ("BRBINF2_EL1", 0x8c10, R::BRBINF2_EL1),
    ("BRBSRC2_EL1", 0x8c11, R::BRBSRC2_EL1),
    ("BRBTGT2_EL1", 0x8c12, R::BRBTGT2_EL1),
    ("BRBINF18_EL1", 0x8c14, R::BRBINF18_EL1),
    ("BRBSRC18_EL1", 0x8c15, R::BRBSRC18_EL1),
    ("BRBTGT18_EL1", 0x8c16, R::BRBTGT18_EL1),
    ("BRBINF3_EL1", 0x8c18, R::BRBINF3_EL1),
    ("BRBSRC3_EL1", 0x8c19, R::BRBSRC3_EL1),
    ("BRBTGT3_EL1", 0x8c1a, R::BRBTGT3_EL1),
    ("BRBINF19_EL1", 0x8c1c, R::BRBINF19_EL1),
    ("BRBSRC19_EL1", 0x8c1d, R::BRBSRC19_EL1),
    ("BRBTGT19_EL1", 0x8c1e, R::BRBTGT19_EL1),
    ("BRBINF4_EL1", 0x8c20, R::BRBINF4_EL1),
    ("BRBSRC4_EL1", 0x8c21, R::BRBSRC4_EL1),
    ("BRBTGT4_EL1", 0x8c22, R::BRBTGT4_EL1),
    ("BRBINF20_EL1", 0x8c24, R::BRBINF20_EL1),
    ("BRBSRC20_EL1", 0x8c25, R::BRBSRC20_EL1),
    ("BRBTGT20_EL1", 0x8c26, R::BRBTGT20_EL1),
    ("BRBINF5_EL1", 0x8c28, R::BRBINF5_EL1),
    ("BRBSRC5_EL1", 0x8c29, R::BRBSRC5_EL1),
    ("BRBTGT5_EL1", 0x8c2a, R::BRBTGT5_EL1),
    ("BRBINF21_EL1", 0x8c2c, R::BRBINF21_EL1),
    ("BRBSRC21_EL1", 0x8c2d, R::BRBSRC21_EL1),
    ("BRBTGT21_EL1", 0x8c2e, R::BRBTGT21_EL1),
    ("BRBINF6_EL1", 0x8c30, R::BRBINF6_EL1),
    ("BRBSRC6_EL1", 0x8c31, R::BRBSRC6_EL1),
    ("BRBTGT6_EL1", 0x8c32, R::BRBTGT6_EL1),
    ("BRBINF22_EL1", 0x8c34, R::BRBINF22_EL1),
    ("BRBSRC22_EL1", 0x8c35, R::BRBSRC22_EL1),
    ("BRBTGT22_EL1", 0x8c36, R::BRBTGT22_EL1),
    ("BRBINF7_EL1", 0x8c38, R::BRBINF7_EL1),
    ("BRBSRC7_EL1", 0x8c39, R::BRBSRC7_EL1),
    ("BRBTGT7_EL1", 0x8c3a, R::BRBTGT7_EL1),
    ("BRBINF23_EL1", 0x8c3c, R::BRBINF23_EL1),
    ("BRBSRC23_EL1", 0x8c3d, R::BRBSRC23_EL1),
    ("BRBTGT23_EL1", 0x8c3e, R::BRBTGT23_EL1),
    ("BRBINF8_EL1", 0x8c40, R::BRBINF8_EL1),
    ("BRBSRC8_EL1", 0x8c41, R::BRBSRC8_EL1),
    ("BRBTGT8_EL1", 0x8c42, R::BRBTGT8_EL1),
    ("BRBINF24_EL1", 0x8c44, R::BRBINF24_EL1),
    ("BRBSRC24_EL1", 0x8c45, R::BRBSRC24_EL1),
    ("BRBTGT24_EL1", 0x8c46, R::BRBTGT24_EL1),
    ("BRBINF9_EL1", 0x8c48, R::BRBINF9_EL1),
    ("BRBSRC9_EL1", 0x8c49, R::BRBSRC9_EL1),
    ("BRBTGT9_EL1", 0x8c4a, R::BRBTGT9_EL1),
    ("BRBINF25_EL1", 0x8c4c, R::BRBINF25_EL1),
    ("BRBSRC25_EL1", 0x8c4d, R::BRBSRC25_EL1),
    ("BRBTGT25_EL1", 0x8c4e, R::BRBTGT25_EL1),
    ("BRBINF10_EL1", 0x8c50, R::BRBINF10_EL1),
    ("BRBSRC10_EL1", 0x8c51, R::BRBSRC10_EL1),
    ("BRBTGT10_EL1", 0x8c52, R::BRBTGT10_EL1),
    ("BRBINF26_EL1", 0x8c54, R::BRBINF26_EL1),
    ("BRBSRC26_EL1", 0x8c55, R::BRBSRC26_EL1),
    ("BRBTGT26_EL1", 0x8c56, R::BRBTGT26_EL1),
    ("BRBINF11_EL1", 0x8c58, R::BRBINF11_EL1),
    ("BRBSRC11_EL1", 0x8c59, R::BRBSRC11_EL1),
    ("BRBTGT11_EL1", 0x8c5a, R::BRBTGT11_EL1),
    ("BRBINF27_EL1", 0x8c5c, R::BRBINF27_EL1),
    ("BRBSRC27_EL1", 0x8c5d, R::BRBSRC27_EL1),
    ("BRBTGT27_EL1", 0x8c5e, R::BRBTGT27_EL1),
    ("BRBINF12_EL1", 0x8c60, R::BRBINF12_EL1),
    ("BRBSRC12_EL1", 0x8c61, R::BRBSRC12_EL1),
    ("BRBTGT12_EL1", 0x8c62, R::BRBTGT12_EL1),
    ("BRBINF28_EL1", 0x8c64, R::BRBINF28_EL1),
    ("BRBSRC28_EL1", 0x8c65, R::BRBSRC28_EL1),
    ("BRBTGT28_EL1", 0x8c66, R::BRBTGT28_EL1),
    ("BRBINF13_EL1", 0x8c68, R::BRBINF13_EL1),
    ("BRBSRC13_EL1", 0x8c69, R::BRBSRC13_EL1),
    ("BRBTGT13_EL1", 0x8c6a, R::BRBTGT13_EL1),
    ("BRBINF29_EL1", 0x8c6c, R::BRBINF29_EL1),
    ("BRBSRC29_EL1", 0x8c6d, R::BRBSRC29_EL1),
    ("BRBTGT29_EL1", 0x8c6e, R::BRBTGT29_EL1),
    ("BRBINF14_EL1", 0x8c70, R::BRBINF14_EL1),
    ("BRBSRC14_EL1", 0x8c71, R::BRBSRC14_EL1),
    ("BRBTGT14_EL1", 0x8c72, R::BRBTGT14_EL1),
    ("BRBINF30_EL1", 0x8c74, R::BRBINF30_EL1),
    ("BRBSRC30_EL1", 0x8c75, R::BRBSRC30_EL1),
    ("BRBTGT30_EL1", 0x8c76, R::BRBTGT30_EL1),
    ("BRBINF15_EL1", 0x8c78, R::BRBINF15_EL1),
    ("BRBSRC15_EL1", 0x8c79, R::BRBSRC15_EL1),
    ("BRBTGT15_EL1", 0x8c7a, R::BRBTGT15_EL1),
    ("BRBINF31_EL1", 0x8c7c, R::BRBINF31_EL1),
    ("BRBSRC31_EL1", 0x8c7d, R::BRBSRC31_EL1),
    ("BRBTGT31_EL1", 0x8c7e, R::BRBTGT31_EL1),
    ("BRBCR_EL1", 0x8c80, R::BRBCR_EL1),
    ("BRBCR_EL2", 0xa480, R::BRBCR_EL2),
    ("BRBFCR_EL1", 0x8c81, R::BRBFCR_EL1),
    ("BRBTS_EL1", 0x8c82, R::BRBTS_EL1),
    ("BRBINFINJ_EL1", 0x8c88, R::BRBINFINJ_EL1),
    ("BRBSRCINJ_EL1", 0x8c89, R::BRBSRCINJ_EL1),
    ("BRBTGTINJ_EL1", 0x8c8a, R::BRBTGTINJ_EL1),
    ("BRBIDR0_EL1", 0x8c90, R::BRBIDR0_EL1),
    ("MDCCSR_EL0", 0x9808, R::MDCCSR_EL0),
    ("DBGDTR_EL0", 0x9820, R::DBGDTR_EL0),
    ("DBGDTRRX_EL0", 0x9828, R::DBGDTRRX_EL0),
    ("DBGDTRTX_EL0", 0x9828, R::DBGDTRTX_EL0),
    ("DBGVCR32_EL2", 0xa038, R::DBGVCR32_EL2),
    ("MIDR_EL1", 0xc000, R::MIDR_EL1),
    ("MPIDR_EL1", 0xc005, R::MPIDR_EL1),
    ("REVIDR_EL1", 0xc006, R::REVIDR_EL1),
    ("ID_PFR0_EL1", 0xc008, R::ID_PFR0_EL1),
    ("ID_PFR1_EL1", 0xc009, R::ID_PFR1_EL1),
    ("ID_DFR0_EL1", 0xc00a, R::ID_DFR0_EL1),
    ("ID_AFR0_EL1", 0xc00b, R::ID_AFR0_EL1),
    ("ID_MMFR0_EL1", 0xc00c, R::ID_MMFR0_EL1),
    ("ID_MMFR1_EL1", 0xc00d, R::ID_MMFR1_EL1),
    ("ID_MMFR2_EL1", 0xc00e, R::ID_MMFR2_EL1),
    ("ID_MMFR3_EL1", 0xc00f, R::ID_MMFR3_EL1),
    ("ID_ISAR0_EL1", 0xc010, R::ID_ISAR0_EL1),
    ("ID_ISAR1_EL1", 0xc011, R::ID_ISAR1_EL1),
    ("ID_ISAR2_EL1", 0xc012, R::ID_ISAR2_EL1),
    ("ID_ISAR3_EL1", 0xc013, R::ID_ISAR3_EL1),
    ("ID_ISAR4_EL1", 0xc014, R::ID_ISAR4_EL1),
    ("ID_ISAR5_EL1", 0xc015, R::ID_ISAR5_EL1),
    ("ID_MMFR4_EL1", 0xc016, R::ID_MMFR4_EL1),
    ("ID_ISAR6_EL1", 0xc017, R::ID_ISAR6_EL1),
    ("MVFR0_EL1", 0xc018, R::MVFR0_EL1),
    ("MVFR1_EL1", 0xc019, R::MVFR1_EL1),
    ("MVFR2_EL1", 0xc01a, R::MVFR2_EL1),
    ("ID_PFR2_EL1", 0xc01c, R::ID_PFR2_EL1),
    ("ID_DFR1_EL1", 0xc01d, R::ID_DFR1_EL1),
    ("ID_MMFR5_EL1", 0xc01e, R::ID_MMFR5_EL1),
    ("ID_AA64PFR0_EL1", 0xc020, R::ID_AA64PFR0_EL1),
    ("ID_AA64PFR1_EL1", 0xc021, R::ID_AA64PFR1_EL1),
    ("ID_AA64ZFR0_EL1", 0xc024, R::ID_AA64ZFR0_EL1),
    ("ID_AA64SMFR0_EL1", 0xc025, R::ID_AA64SMFR0_EL1),
    ("ID_AA64DFR0_EL1", 0xc028, R::ID_AA64DFR0_EL1),
    ("ID_AA64DFR1_EL1", 0xc029, R::ID_AA64DFR1_EL1),
    ("ID_AA64AFR0_EL1", 0xc02c, R::ID_AA64AFR0_EL1),
    ("ID_AA64AFR1_EL1", 0xc02d, R::ID_AA64AFR1_EL1),
    ("ID_AA64ISAR0_EL1", 0xc030, R::ID_AA64ISAR0_EL1),
    ("ID_AA64ISAR1_EL1", 0xc031, R::ID_AA64ISAR1_EL1),
    ("ID_AA64ISAR2_EL1", 0xc032, R::ID_AA64ISAR2_EL1),
    ("ID_AA64MMFR0_EL1", 0xc038, R::ID_AA64MMFR0_EL1),
    ("ID_AA64MMFR1_EL1", 0xc039, R::ID_AA64MMFR1_EL1),
    ("ID_AA64MMFR2_EL1", 0xc03a, R::ID_AA64MMFR2_EL1),
    ("SCTLR_EL1", 0xc080, R::SCTLR_EL1),
    ("ACTLR_EL1", 0xc081, R::ACTLR_EL1),
    ("CPACR_EL1", 0xc082, R::CPACR_EL1),
    ("RGSR_EL1", 0xc085, R::RGSR_EL1),
    ("GCR_EL1", 0xc086, R::GCR_EL1),
    ("ZCR_EL1", 0xc090, R::ZCR_EL1),
    ("TRFCR_EL1", 0xc091, R::TRFCR_EL1),
    ("SMPRI_EL1", 0xc094, R::SMPRI_EL1),
    ("SMCR_EL1", 0xc096, R::SMCR_EL1),
    ("TTBR0_EL1", 0xc100, R::TTBR0_EL1),
    ("TTBR1_EL1", 0xc101, R::TTBR1_EL1),
    ("TCR_EL1", 0xc102, R::TCR_EL1),
    ("APIAKeyLo_EL1", 0xc108, R::APIAKEYLO_EL1),
    ("APIAKeyHi_EL1", 0xc109, R::APIAKEYHI_EL1),
    ("APIBKeyLo_EL1", 0xc10a, R::APIBKEYLO_EL1),
    ("APIBKeyHi_EL1", 0xc10b, R::APIBKEYHI_EL1),
    ("APDAKeyLo_EL1", 0xc110, R::APDAKEYLO_EL1),
    ("APDAKeyHi_EL1", 0xc111, R::APDAKEYHI_EL1),
    ("APDBKeyLo_EL1", 0xc112, R::APDBKEYLO_EL1),
    ("APDBKeyHi_EL1", 0xc113, R::APDBKEYHI_EL1),
    ("APGAKeyLo_EL1", 0xc118, R::APGAKEYLO_EL1),
    ("APGAKeyHi_EL1", 0xc119, R::APGAKEYHI_EL1),
    ("SPSR_EL1", 0xc200, R::SPSR_EL1),
    ("ELR_EL1", 0xc201, R::ELR_EL1),
    ("SP_EL0", 0xc208, R::SP_EL0),
    ("ICC_PMR_EL1", 0xc230, R::ICC_PMR_EL1),
    ("ICV_PMR_EL1", 0xc230, R::ICV_PMR_EL1),
    ("AFSR0_EL1", 0xc288, R::AFSR0_EL1),
    ("AFSR1_EL1", 0xc289, R::AFSR1_EL1),
    ("ESR_EL1", 0xc290, R::ESR_EL1),
    ("ERRIDR_EL1", 0xc298, R::ERRIDR_EL1),
    ("ERRSELR_EL1", 0xc299, R::ERRSELR_EL1),
    ("ERXFR_EL1", 0xc2a0, R::ERXFR_EL1),
    ("ERXCTLR_EL1", 0xc2a1, R::ERXCTLR_EL1),
    ("ERXSTATUS_EL1", 0xc2a2, R::ERXSTATUS_EL1),
    ("ERXADDR_EL1", 0xc2a3, R::ERXADDR_EL1),
    ("ERXPFGF_EL1", 0xc2a4, R::ERXPFGF_EL1),
    ("ERXPFGCTL_EL1", 0xc2a5, R::ERXPFGCTL_EL1),
    ("ERXPFGCDN_EL1", 0xc2a6, R::ERXPFGCDN_EL1),
    ("ERXMISC0_EL1", 0xc2a8, R::ERXMISC0_EL1),
    ("ERXMISC1_EL1", 0xc2a9, R::ERXMISC1_EL1),
    ("ERXMISC2_EL1", 0xc2aa, R::ERXMISC2_EL1),
    ("ERXMISC3_EL1", 0xc2ab, R::ERXMISC3_EL1),
    ("TFSR_EL1", 0xc2b0, R::TFSR_EL1),
    ("TFSRE0_EL1", 0xc2b1, R::TFSRE0_EL1),
    ("FAR_EL1", 0xc300, R::FAR_EL1),
    ("PAR_EL1", 0xc3a0, R::PAR_EL1),
    ("PMSCR_EL1", 0xc4c8, R::PMSCR_EL1),
    ("PMSNEVFR_EL1", 0xc4c9, R::PMSNEVFR_EL1),
    ("PMSICR_EL1", 0xc4ca, R::PMSICR_EL1),
    ("PMSIRR_EL1", 0xc4cb, R::PMSIRR_EL1),
    ("PMSFCR_EL1", 0xc4cc, R::PMSFCR_EL1),
    ("PMSEVFR_EL1", 0xc4cd, R::PMSEVFR_EL1),
    ("PMSLATFR_EL1", 0xc4ce, R::PMSLATFR_EL1),
    ("PMSIDR_EL1", 0xc4cf, R::PMSIDR_EL1),
    ("PMBLIMITR_EL1", 0xc4d0, R::PMBLIMITR_EL1),
    ("PMBPTR_EL1", 0xc4d1, R::PMBPTR_EL1),
    ("PMBSR_EL1", 0xc4d3, R::PMBSR_EL1),
    ("PMBIDR_EL1", 0xc4d7, R::PMBIDR_EL1),
    ("TRBLIMITR_EL1", 0xc4d8, R::TRBLIMITR_EL1),
    ("TRBPTR_EL1", 0xc4d9, R::TRBPTR_EL1),
    ("TRBBASER_EL1", 0xc4da, R::TRBBASER_EL1),
    ("TRBSR_EL1", 0xc4db, R::TRBSR_EL1),
    ("TRBMAR_EL1", 0xc4dc, R::TRBMAR_EL1),
    ("TRBTRG_EL1", 0xc4de, R::TRBTRG_EL1),
    ("TRBIDR_EL1", 0xc4df, R::TRBIDR_EL1),
    ("PMINTENSET_EL1", 0xc4f1, R::PMINTENSET_EL1),
    ("PMINTENCLR_EL1", 0xc4f2, R::PMINTENCLR_EL1),
    ("PMMIR_EL1", 0xc4f6, R::PMMIR_EL1),
    ("MAIR_EL1", 0xc510, R::MAIR_EL1),
    ("AMAIR_EL1", 0xc518, R::AMAIR_EL1),
    ("LORSA_EL1", 0xc520, R::LORSA_EL1),
    ("LOREA_EL1", 0xc521, R::LOREA_EL1),
    ("LORN_EL1", 0xc522, R::LORN_EL1),
    ("LORC_EL1", 0xc523, R::LORC_EL1),
    ("MPAMIDR_EL1", 0xc524, R::MPAMIDR_EL1),
    ("LORID_EL1", 0xc527, R::LORID_EL1),
    ("MPAM1_EL1", 0xc528, R::MPAM1_EL1),
    ("MPAM0_EL1", 0xc529, R::MPAM0_EL1),
    ("MPAMSM_EL1", 0xc52b, R::MPAMSM_EL1),
    ("VBAR_EL1", 0xc600, R::VBAR_EL1),
    ("RVBAR_EL1", 0xc601, R::RVBAR_EL1),
    ("RMR_EL1", 0xc602, R::RMR_EL1),
    ("ISR_EL1", 0xc608, R::ISR_EL1),
    ("DISR_EL1", 0xc609, R::DISR_EL1),
    ("ICC_IAR0_EL1", 0xc640, R::ICC_IAR0_EL1),
    ("ICV_IAR0_EL1", 0xc640, R::ICV_IAR0_EL1),
    ("ICC_EOIR0_EL1", 0xc641, R::ICC_EOIR0_EL1),
    ("ICV_EOIR0_EL1", 0xc641, R::ICV_EOIR0_EL1),
    ("ICC_HPPIR0_EL1", 0xc642, R::ICC_HPPIR0_EL1),
    ("ICV_HPPIR0_EL1", 0xc642, R::ICV_HPPIR0_EL1),
    ("ICC_BPR0_EL1", 0xc643, R::ICC_BPR0_EL1),
    ("ICV_BPR0_EL1", 0xc643, R::ICV_BPR0_EL1),
    ("ICC_AP0R0_EL1", 0xc644, R::ICC_AP0R0_EL1),
    ("ICV_AP0R0_EL1", 0xc644, R::ICV_AP0R0_EL1),
    ("ICC_AP0R1_EL1", 0xc645, R::ICC_AP0R1_EL1),
    ("ICV_AP0R1_EL1", 0xc645, R::ICV_AP0R1_EL1),
    ("ICC_AP0R2_EL1", 0xc646, R::ICC_AP0R2_EL1),
    ("ICV_AP0R2_EL1", 0xc646, R::ICV_AP0R2_EL1),
    ("ICC_AP0R3_EL1", 0xc647, R::ICC_AP0R3_EL1),
    ("ICV_AP0R3_EL1", 0xc647, R::ICV_AP0R3_EL1),
    ("ICC_AP1R0_EL1", 0xc648, R::ICC_AP1R0_EL1),
    ("ICV_AP1R0_EL1", 0xc648, R::ICV_AP1R0_EL1),
    ("ICC_AP1R1_EL1", 0xc649, R::ICC_AP1R1_EL1),
    ("ICV_AP1R1_EL1", 0xc649, R::ICV_AP1R1_EL1),
    ("ICC_AP1R2_EL1", 0xc64a, R::ICC_AP1R2_EL1),
    ("ICV_AP1R2_EL1", 0xc64a, R::ICV_AP1R2_EL1),
    ("ICC_AP1R3_EL1", 0xc64b, R::ICC_AP1R3_EL1),
    ("ICV_AP1R3_EL1", 0xc64b, R::ICV_AP1R3_EL1),
    ("ICC_NMIAR1_EL1", 0xc64d, R::ICC_NMIAR1_EL1),
    ("ICV_NMIAR1_EL1", 0xc64d, R::ICV_NMIAR1_EL1),
    ("ICC_DIR_EL1", 0xc659, R::ICC_DIR_EL1),
    ("ICV_DIR_EL1", 0xc659, R::ICV_DIR_EL1),
    ("ICC_RPR_EL1", 0xc65b, R::ICC_RPR_EL1),
    ("ICV_RPR_EL1", 0xc65b, R::ICV_RPR_EL1),
    ("ICC_SGI1R_EL1", 0xc65d, R::ICC_SGI1R_EL1),
    ("ICC_ASGI1R_EL1", 0xc65e, R::ICC_ASGI1R_EL1),
    ("ICC_SGI0R_EL1", 0xc65f, R::ICC_SGI0R_EL1),
    ("ICC_IAR1_EL1", 0xc660, R::ICC_IAR1_EL1),
    ("ICV_IAR1_EL1", 0xc660, R::ICV_IAR1_EL1),
    ("ICC_EOIR1_EL1", 0xc661, R::ICC_EOIR1_EL1),
    ("ICV_EOIR1_EL1", 0xc661, R::ICV_EOIR1_EL1),
    ("ICC_HPPIR1_EL1", 0xc662, R::ICC_HPPIR1_EL1),
    ("ICV_HPPIR1_EL1", 0xc662, R::ICV_HPPIR1_EL1),
    ("ICC_BPR1_EL1", 0xc663, R::ICC_BPR1_EL1),
    ("ICV_BPR1_EL1", 0xc663, R::ICV_BPR1_EL1),
    ("ICC_CTLR_EL1", 0xc664, R::ICC_CTLR_EL1),
    ("ICV_CTLR_EL1", 0xc664, R::ICV_CTLR_EL1),
    ("ICC_SRE_EL1", 0xc665, R::ICC_SRE_EL1),
    ("ICC_IGRPEN0_EL1", 0xc666, R::ICC_IGRPEN0_EL1),
    ("ICV_IGRPEN0_EL1", 0xc666, R::ICV_IGRPEN0_EL1),
    ("ICC_IGRPEN1_EL1", 0xc667, R::ICC_IGRPEN1_EL1),
    ("ICV_IGRPEN1_EL1", 0xc667, R::ICV_IGRPEN1_EL1),
    ("CONTEXTIDR_EL1", 0xc681, R::CONTEXTIDR_EL1),
    ("TPIDR_EL1", 0xc684, R::TPIDR_EL1),
    ("ACCDATA_EL1", 0xc685, R::ACCDATA_EL1),
    ("SCXTNUM_EL1", 0xc687, R::SCXTNUM_EL1),
    ("CNTKCTL_EL1", 0xc708, R::CNTKCTL_EL1),
    ("CCSIDR_EL1", 0xc800, R::CCSIDR_EL1),
    ("CLIDR_EL1", 0xc801, R::CLIDR_EL1),
    ("CCSIDR2_EL1", 0xc802, R::CCSIDR2_EL1),
    ("GMID_EL1", 0xc804, R::GMID_EL1),
    ("SMIDR_EL1", 0xc806, R::SMIDR_EL1),
    ("AIDR_EL1", 0xc807, R::AIDR_EL1),
    ("CSSELR_EL1", 0xd000, R::CSSELR_EL1),
    ("CTR_EL0", 0xd801, R::CTR_EL0),
    ("DCZID_EL0", 0xd807, R::DCZID_EL0),
    ("RNDR", 0xd920, R::RNDR),
    ("RNDRRS", 0xd921, R::RNDRRS),
    ("SVCR", 0xda12, R::SVCR),
    ("FPCR", 0xda20, R::FPCR),
    ("FPSR", 0xda21, R::FPSR),
    ("DSPSR_EL0", 0xda28, R::DSPSR_EL0),
    ("DLR_EL0", 0xda29, R::DLR_EL0),
    ("PMCR_EL0", 0xdce0, R::PMCR_EL0),
    ("PMCNTENSET_EL0", 0xdce1, R::PMCNTENSET_EL0),
    ("PMCNTENCLR_EL0", 0xdce2, R::PMCNTENCLR_EL0),
    ("PMOVSCLR_EL0", 0xdce3, R::PMOVSCLR_EL0),
    ("PMSWINC_EL0", 0xdce4, R::PMSWINC_EL0),
    ("PMSELR_EL0", 0xdce5, R::PMSELR_EL0),
    ("PMCEID0_EL0", 0xdce6, R::PMCEID0_EL0),
    ("PMCEID1_EL0", 0xdce7, R::PMCEID1_EL0),
    ("PMCCNTR_EL0", 0xdce8, R::PMCCNTR_EL0),
    ("PMXEVTYPER_EL0", 0xdce9, R::PMXEVTYPER_EL0),
    ("PMXEVCNTR_EL0", 0xdcea, R::PMXEVCNTR_EL0),
    ("PMUSERENR_EL0", 0xdcf0, R::PMUSERENR_EL0),
    ("PMOVSSET_EL0", 0xdcf3, R::PMOVSSET_EL0),
    ("TPIDR_EL0", 0xde82, R::TPIDR_EL0),
    ("TPIDRRO_EL0", 0xde83, R::TPIDRRO_EL0),
    ("TPIDR2_EL0", 0xde85, R::TPIDR2_EL0),
    ("SCXTNUM_EL0", 0xde87, R::SCXTNUM_EL0),
    ("AMCR_EL0", 0xde90, R::AMCR_EL0),
    ("AMCFGR_EL0", 0xde91, R::AMCFGR_EL0),
    ("AMCGCR_EL0", 0xde92, R::AMCGCR_EL0),
    ("AMUSERENR_EL0", 0xde93, R::AMUSERENR_EL0),
    ("AMCNTENCLR0_EL0", 0xde94, R::AMCNTENCLR0_EL0),
    ("AMCNTENSET0_EL0", 0xde95, R::AMCNTENSET0_EL0),
    ("AMCG1IDR_EL0", 0xde96, R::AMCG1IDR_EL0),
    ("AMCNTENCLR1_EL0", 0xde98, R::AMCNTENCLR1_EL0),
    ("AMCNTENSET1_EL0", 0xde99, R::AMCNTENSET1_EL0),
    ("AMEVCNTR00_EL0", 0xdea0, R::AMEVCNTR00_EL0),
    ("AMEVCNTR01_EL0", 0xdea1, R::AMEVCNTR01_EL0),
    ("AMEVCNTR02_EL0", 0xdea2, R::AMEVCNTR02_EL0),
    ("AMEVCNTR03_EL0", 0xdea3, R::AMEVCNTR03_EL0),
    ("AMEVTYPER00_EL0", 0xdeb0, R::AMEVTYPER00_EL0),
    ("AMEVTYPER01_EL0", 0xdeb1, R::AMEVTYPER01_EL0),
    ("AMEVTYPER02_EL0", 0xdeb2, R::AMEVTYPER02_EL0),
    ("AMEVTYPER03_EL0", 0xdeb3, R::AMEVTYPER03_EL0),
    ("AMEVCNTR10_EL0", 0xdee0, R::AMEVCNTR10_EL0),
    ("AMEVCNTR11_EL0", 0xdee1, R::AMEVCNTR11_EL0),
    ("AMEVCNTR12_EL0", 0xdee2, R::AMEVCNTR12_EL0),
    ("AMEVCNTR13_EL0", 0xdee3, R::AMEVCNTR13_EL0),
    ("AMEVCNTR14_EL0", 0xdee4, R::AMEVCNTR14_EL0),
    ("AMEVCNTR15_EL0", 0xdee5, R::AMEVCNTR15_EL0),
    ("AMEVCNTR16_EL0", 0xdee6, R::AMEVCNTR16_EL0),
    ("AMEVCNTR17_EL0", 0xdee7, R::AMEVCNTR17_EL0),
    ("AMEVCNTR18_EL0", 0xdee8, R::AMEVCNTR18_EL0),
    ("AMEVCNTR19_EL0", 0xdee9, R::AMEVCNTR19_EL0),
    ("AMEVCNTR110_EL0", 0xdeea, R::AMEVCNTR110_EL0),
    ("AMEVCNTR111_EL0", 0xdeeb, R::AMEVCNTR111_EL0),
    ("AMEVCNTR112_EL0", 0xdeec, R::AMEVCNTR112_EL0),
    ("AMEVCNTR113_EL0", 0xdeed, R::AMEVCNTR113_EL0),
    ("AMEVCNTR114_EL0", 0xdeee, R::AMEVCNTR114_EL0),
    ("AMEVCNTR115_EL0", 0xdeef, R::AMEVCNTR115_EL0),
    ("AMEVTYPER10_EL0", 0xdef0, R::AMEVTYPER10_EL0),
    ("AMEVTYPER11_EL0", 0xdef1, R::AMEVTYPER11_EL0),
    ("AMEVTYPER12_EL0", 0xdef2, R::AMEVTYPER12_EL0),
    ("AMEVTYPER13_EL0", 0xdef3, R::AMEVTYPER13_EL0),
    ("AMEVTYPER14_EL0", 0xdef4, R::AMEVTYPER14_EL0),
    ("AMEVTYPER15_EL0", 0xdef5, R::AMEVTYPER15_EL0),
    ("AMEVTYPER16_EL0", 0xdef6, R::AMEVTYPER16_EL0),
    ("AMEVTYPER17_EL0", 0xdef7, R::AMEVTYPER17_EL0),
    ("AMEVTYPER18_EL0", 0xdef8, R::AMEVTYPER18_EL0),
    ("AMEVTYPER19_EL0", 0xdef9, R::AMEVTYPER19_EL0),
    ("AMEVTYPER110_EL0", 0xdefa, R::AMEVTYPER110_EL0),
    ("AMEVTYPER111_EL0", 0xdefb, R::AMEVTYPER111_EL0),
    ("AMEVTYPER112_EL0", 0xdefc, R::AMEVTYPER112_EL0),
    ("AMEVTYPER113_EL0", 0xdefd, R::AMEVTYPER113_EL0),
    ("AMEVTYPER114_EL0", 0xdefe, R::AMEVTYPER114_EL0),
    ("AMEVTYPER115_EL0", 0xdeff, R::AMEVTYPER115_EL0),
    ("CNTFRQ_EL0", 0xdf00, R::CNTFRQ_EL0),
    ("CNTPCT_EL0", 0xdf01, R::CNTPCT_EL0),
    ("CNTVCT_EL0", 0xdf02, R::CNTVCT_EL0),
    ("CNTPCTSS_EL0", 0xdf05, R::CNTPCTSS_EL0),
    ("CNTVCTSS_EL0", 0xdf06, R::CNTVCTSS_EL0),
    ("CNTP_TVAL_EL0", 0xdf10, R::CNTP_TVAL_EL0),
    ("CNTP_CTL_EL0", 0xdf11, R::CNTP_CTL_EL0),
    ("CNTP_CVAL_EL0", 0xdf12, R::CNTP_CVAL_EL0),
    ("CNTV_TVAL_EL0", 0xdf18, R::CNTV_TVAL_EL0),
    ("CNTV_CTL_EL0", 0xdf19, R::CNTV_CTL_EL0),
    ("CNTV_CVAL_EL0", 0xdf1a, R::CNTV_CVAL_EL0),
    ("PMEVCNTR0_EL0", 0xdf40, R::PMEVCNTR0_EL0),
    ("PMEVCNTR1_EL0", 0xdf41, R::PMEVCNTR1_EL0),
    ("PMEVCNTR2_EL0", 0xdf42, R::PMEVCNTR2_EL0),
    ("PMEVCNTR3_EL0", 0xdf43, R::PMEVCNTR3_EL0),
    ("PMEVCNTR4_EL0", 0xdf44, R::PMEVCNTR4_EL0),
    ("PMEVCNTR5_EL0", 0xdf45, R::PMEVCNTR5_EL0),
    ("PMEVCNTR6_EL0", 0xdf46, R::PMEVCNTR6_EL0),
    ("PMEVCNTR7_EL0", 0xdf47, R::PMEVCNTR7_EL0),
    ("PMEVCNTR8_EL0", 0xdf48, R::PMEVCNTR8_EL0),
    ("PMEVCNTR9_EL0", 0xdf49, R::PMEVCNTR9_EL0),
    ("PMEVCNTR10_EL0", 0xdf4a, R::PMEVCNTR10_EL0),
    ("PMEVCNTR11_EL0", 0xdf4b, R::PMEVCNTR11_EL0),
    ("PMEVCNTR12_EL0", 0xdf4c, R::PMEVCNTR12_EL0),
    ("PMEVCNTR13_EL0", 0xdf4d, R::PMEVCNTR13_EL0),
    ("PMEVCNTR14_EL0", 0xdf4e, R::PMEVCNTR14_EL0),
    ("PMEVCNTR15_EL0", 0xdf4f, R::PMEVCNTR15_EL0),
    ("PMEVCNTR16_EL0", 0xdf50, R::PMEVCNTR16_EL0),
    ("PMEVCNTR17_EL0", 0xdf51, R::PMEVCNTR17_EL0),
    ("PMEVCNTR18_EL0", 0xdf52, R::PMEVCNTR18_EL0),
    ("PMEVCNTR19_EL0", 0xdf53, R::PMEVCNTR19_EL0),
    ("PMEVCNTR20_EL0", 0xdf54, R::PMEVCNTR20_EL0),
    ("PMEVCNTR21_EL0", 0xdf55, R::PMEVCNTR21_EL0),
    ("PMEVCNTR22_EL0", 0xdf56, R::PMEVCNTR22_EL0),
    ("PMEVCNTR23_EL0", 0xdf57, R::PMEVCNTR23_EL0),
    ("PMEVCNTR24_EL0", 0xdf58, R::PMEVCNTR24_EL0),
    ("PMEVCNTR25_EL0", 0xdf59, R::PMEVCNTR25_EL0),
    ("PMEVCNTR26_EL0", 0xdf5a, R::PMEVCNTR26_EL0),
    ("PMEVCNTR27_EL0", 0xdf5b, R::PMEVCNTR27_EL0),
    ("PMEVCNTR28_EL0", 0xdf5c, R::PMEVCNTR28_EL0),
    ("PMEVCNTR29_EL0", 0xdf5d, R::PMEVCNTR29_EL0),
    ("PMEVCNTR30_EL0", 0xdf5e, R::PMEVCNTR30_EL0),
    ("PMEVTYPER0_EL0", 0xdf60, R::PMEVTYPER0_EL0),
    ("PMEVTYPER1_EL0", 0xdf61, R::PMEVTYPER1_EL0),
    ("PMEVTYPER2_EL0", 0xdf62, R::PMEVTYPER2_EL0),
    ("PMEVTYPER3_EL0", 0xdf63, R::PMEVTYPER3_EL0),
    ("PMEVTYPER4_EL0", 0xdf64, R::PMEVTYPER4_EL0),
    ("PMEVTYPER5_EL0", 0xdf65, R::PMEVTYPER5_EL0),
    ("PMEVTYPER6_EL0", 0xdf66, R::PMEVTYPER6_EL0),
    ("PMEVTYPER7_EL0", 0xdf67, R::PMEVTYPER7_EL0),
    ("PMEVTYPER8_EL0", 0xdf68, R::PMEVTYPER8_EL0),
    ("PMEVTYPER9_EL0", 0xdf69, R::PMEVTYPER9_EL0),
    ("PMEVTYPER10_EL0", 0xdf6a, R::PMEVTYPER10_EL0),
    ("PMEVTYPER11_EL0", 0xdf6b, R::PMEVTYPER11_EL0),
    ("PMEVTYPER12_EL0", 0xdf6c, R::PMEVTYPER12_EL0),
    ("PMEVTYPER13_EL0", 0xdf6d, R::PMEVTYPER13_EL0),
    ("PMEVTYPER14_EL0", 0xdf6e, R::PMEVTYPER14_EL0),
    ("PMEVTYPER15_EL0", 0xdf6f, R::PMEVTYPER15_EL0),
    ("PMEVTYPER16_EL0", 0xdf70, R::PMEVTYPER16_EL0),
    ("PMEVTYPER17_EL0", 0xdf71, R::PMEVTYPER17_EL0),
    ("PMEVTYPER18_EL0", 0xdf72, R::PMEVTYPER18_EL0),
    ("PMEVTYPER19_EL0", 0xdf73, R::PMEVTYPER19_EL0),
    ("PMEVTYPER20_EL0", 0xdf74, R::PMEVTYPER20_EL0),
    ("PMEVTYPER21_EL0", 0xdf75, R::PMEVTYPER21_EL0),
    ("PMEVTYPER22_EL0", 0xdf76, R::PMEVTYPER22_EL0),
    ("PMEVTYPER23_EL0", 0xdf77, R::PMEVTYPER23_EL0),
    ("PMEVTYPER24_EL0", 0xdf78, R::PMEVTYPER24_EL0),
    ("PMEVTYPER25_EL0", 0xdf79, R::PMEVTYPER25_EL0),
    ("PMEVTYPER26_EL0", 0xdf7a, R::PMEVTYPER26_EL0),
    ("PMEVTYPER27_EL0", 0xdf7b, R::PMEVTYPER27_EL0),
    ("PMEVTYPER28_EL0", 0xdf7c, R::PMEVTYPER28_EL0),
    ("PMEVTYPER29_EL0", 0xdf7d, R::PMEVTYPER29_EL0),
    ("PMEVTYPER30_EL0", 0xdf7e, R::PMEVTYPER30_EL0),
    ("PMCCFILTR_EL0", 0xdf7f, R::PMCCFILTR_EL0),
    ("VPIDR_EL2", 0xe000, R::VPIDR_EL2),
    ("VMPIDR_EL2", 0xe005, R::VMPIDR_EL2),
    ("SCTLR_EL2", 0xe080, R::SCTLR_EL2),
    ("ACTLR_EL2", 0xe081, R::ACTLR_EL2),
    ("HCR_EL2", 0xe088, R::HCR_EL2),
    ("MDCR_EL2", 0xe089, R::MDCR_EL2),
    ("CPTR_EL2", 0xe08a, R::CPTR_EL2),
    ("HSTR_EL2", 0xe08b, R::HSTR_EL2),
    ("HFGRTR_EL2", 0xe08c, R::HFGRTR_EL2),
    ("HFGWTR_EL2", 0xe08d, R::HFGWTR_EL2),
    ("HFGITR_EL2", 0xe08e, R::HFGITR_EL2),
    ("HACR_EL2", 0xe08f, R::HACR_EL2),
    ("ZCR_EL2", 0xe090, R::ZCR_EL2),
    ("TRFCR_EL2", 0xe091, R::TRFCR_EL2),
    ("HCRX_EL2", 0xe092, R::HCRX_EL2),
    ("SMPRIMAP_EL2", 0xe095, R::SMPRIMAP_EL2),
    ("SMCR_EL2", 0xe096, R::SMCR_EL2),
    ("SDER32_EL2", 0xe099, R::SDER32_EL2),
    ("TTBR0_EL2", 0xe100, R::TTBR0_EL2),
    ("TTBR1_EL2", 0xe101, R::TTBR1_EL2),
    ("TCR_EL2", 0xe102, R::TCR_EL2),
    ("VTTBR_EL2", 0xe108, R::VTTBR_EL2),
    ("VTCR_EL2", 0xe10a, R::VTCR_EL2),
    ("VNCR_EL2", 0xe110, R::VNCR_EL2),
    ("VSTTBR_EL2", 0xe130, R::VSTTBR_EL2),
    ("VSTCR_EL2", 0xe132, R::VSTCR_EL2),
    ("DACR32_EL2", 0xe180, R::DACR32_EL2),
    ("HDFGRTR_EL2", 0xe18c, R::HDFGRTR_EL2),
    ("HDFGWTR_EL2", 0xe18d, R::HDFGWTR_EL2),
    ("HAFGRTR_EL2", 0xe18e, R::HAFGRTR_EL2),
    ("SPSR_EL2", 0xe200, R::SPSR_EL2),
    ("ELR_EL2", 0xe201, R::ELR_EL2),
    ("SP_EL1", 0xe208, R::SP_EL1),
    ("SPSR_irq", 0xe218, R::SPSR_IRQ),
    ("SPSR_abt", 0xe219, R::SPSR_ABT),
    ("SPSR_und", 0xe21a, R::SPSR_UND),
    ("SPSR_fiq", 0xe21b, R::SPSR_FIQ),
    ("IFSR32_EL2", 0xe281, R::IFSR32_EL2),
    ("AFSR0_EL2", 0xe288, R::AFSR0_EL2),
    ("AFSR1_EL2", 0xe289, R::AFSR1_EL2),
    ("ESR_EL2", 0xe290, R::ESR_EL2),
    ("VSESR_EL2", 0xe293, R::VSESR_EL2),
    ("FPEXC32_EL2", 0xe298, R::FPEXC32_EL2),
    ("TFSR_EL2", 0xe2b0, R::TFSR_EL2),
    ("FAR_EL2", 0xe300, R::FAR_EL2),
    ("HPFAR_EL2", 0xe304, R::HPFAR_EL2),
    ("PMSCR_EL2", 0xe4c8, R::PMSCR_EL2),
    ("MAIR_EL2", 0xe510, R::MAIR_EL2),
    ("AMAIR_EL2", 0xe518, R::AMAIR_EL2),
    ("MPAMHCR_EL2", 0xe520, R::MPAMHCR_EL2),
    ("MPAMVPMV_EL2", 0xe521, R::MPAMVPMV_EL2),
    ("MPAM2_EL2", 0xe528, R::MPAM2_EL2),
    ("MPAMVPM0_EL2", 0xe530, R::MPAMVPM0_EL2),
    ("MPAMVPM1_EL2", 0xe531, R::MPAMVPM1_EL2),
    ("MPAMVPM2_EL2", 0xe532, R::MPAMVPM2_EL2),
    ("MPAMVPM3_EL2", 0xe533, R::MPAMVPM3_EL2),
    ("MPAMVPM4_EL2", 0xe534, R::MPAMVPM4_EL2),
    ("MPAMVPM5_EL2", 0xe535, R::MPAMVPM5_EL2),
    ("MPAMVPM6_EL2", 0xe536, R::MPAMVPM6_EL2),
    ("MPAMVPM7_EL2", 0xe537, R::MPAMVPM7_EL2),
    ("VBAR_EL2", 0xe600, R::VBAR_EL2),
    ("RVBAR_EL2", 0xe601, R::RVBAR_EL2),
    ("RMR_EL2", 0xe602, R::RMR_EL2),
    ("VDISR_EL2", 0xe609, R::VDISR_EL2),
    ("ICH_AP0R0_EL2", 0xe640, R::ICH_AP0R0_EL2),
    ("ICH_AP0R1_EL2", 0xe641, R::ICH_AP0R1_EL2),
    ("ICH_AP0R2_EL2", 0xe642, R::ICH_AP0R2_EL2),
    ("ICH_AP0R3_EL2", 0xe643, R::ICH_AP0R3_EL2),
    ("ICH_AP1R0_EL2", 0xe648, R::ICH_AP1R0_EL2),
    ("ICH_AP1R1_EL2", 0xe649, R::ICH_AP1R1_EL2),
    ("ICH_AP1R2_EL2", 0xe64a, R::ICH_AP1R2_EL2),
    ("ICH_AP1R3_EL2", 0xe64b, R::ICH_AP1R3_EL2),
    ("ICC_SRE_EL2", 0xe64d, R::ICC_SRE_EL2),
    ("ICH_HCR_EL2", 0xe658, R::ICH_HCR_EL2),
    ("ICH_VTR_EL2", 0xe659, R::ICH_VTR_EL2),
    ("ICH_MISR_EL2", 0xe65a, R::ICH_MISR_EL2),
    ("ICH_EISR_EL2", 0xe65b, R::ICH_EISR_EL2),
    ("ICH_ELRSR_EL2", 0xe65d, R::ICH_ELRSR_EL2),
    ("ICH_VMCR_EL2", 0xe65f, R::ICH_VMCR_EL2),
    ("ICH_LR0_EL2", 0xe660, R::ICH_LR0_EL2),
    ("ICH_LR1_EL2", 0xe661, R::ICH_LR1_EL2),
    ("ICH_LR2_EL2", 0xe662, R::ICH_LR2_EL2),
    ("ICH_LR3_EL2", 0xe663, R::ICH_LR3_EL2),
    ("ICH_LR4_EL2", 0xe664, R::ICH_LR4_EL2),
    ("ICH_LR5_EL2", 0xe665, R::ICH_LR5_EL2),
    ("ICH_LR6_EL2", 0xe666, R::ICH_LR6_EL2),
    ("ICH_LR7_EL2", 0xe667, R::ICH_LR7_EL2),
    ("ICH_LR8_EL2", 0xe668, R::ICH_LR8_EL2),
    ("ICH_LR9_EL2", 0xe669, R::ICH_LR9_EL2),
    ("ICH_LR10_EL2", 0xe66a, R::ICH_LR10_EL2),
    ("ICH_LR11_EL2", 0xe66b, R::ICH_LR11_EL2),
    ("ICH_LR12_EL2", 0xe66c, R::ICH_LR12_EL2),
    ("ICH_LR13_EL2", 0xe66d, R::ICH_LR13_EL2),
    ("ICH_LR14_EL2", 0xe66e, R::ICH_LR14_EL2),
    ("ICH_LR15_EL2", 0xe66f, R::ICH_LR15_EL2),
    ("CONTEXTIDR_EL2", 0xe681, R::CONTEXTIDR_EL2),
    ("TPIDR_EL2", 0xe682, R::TPIDR_EL2),
    ("SCXTNUM_EL2", 0xe687, R::SCXTNUM_EL2),
    ("AMEVCNTVOFF00_EL2", 0xe6c0, R::AMEVCNTVOFF00_EL2),
    ("AMEVCNTVOFF01_EL2", 0xe6c1, R::AMEVCNTVOFF01_EL2),
    ("AMEVCNTVOFF02_EL2", 0xe6c2, R::AMEVCNTVOFF02_EL2),
    ("AMEVCNTVOFF03_EL2", 0xe6c3, R::AMEVCNTVOFF03_EL2),
    ("AMEVCNTVOFF04_EL2", 0xe6c4, R::AMEVCNTVOFF04_EL2),
    ("AMEVCNTVOFF05_EL2", 0xe6c5, R::AMEVCNTVOFF05_EL2),
    ("AMEVCNTVOFF06_EL2", 0xe6c6, R::AMEVCNTVOFF06_EL2),
    ("AMEVCNTVOFF07_EL2", 0xe6c7, R::AMEVCNTVOFF07_EL2),
    ("AMEVCNTVOFF08_EL2", 0xe6c8, R::AMEVCNTVOFF08_EL2),
    ("AMEVCNTVOFF09_EL2", 0xe6c9, R::AMEVCNTVOFF09_EL2),
    ("AMEVCNTVOFF010_EL2", 0xe6ca, R::AMEVCNTVOFF010_EL2),
    ("AMEVCNTVOFF011_EL2", 0xe6cb, R::AMEVCNTVOFF011_EL2),
    ("AMEVCNTVOFF012_EL2", 0xe6cc, R::AMEVCNTVOFF012_EL2),
    ("AMEVCNTVOFF013_EL2", 0xe6cd, R::AMEVCNTVOFF013_EL2),
    ("AMEVCNTVOFF014_EL2", 0xe6ce, R::AMEVCNTVOFF014_EL2),
    ("AMEVCNTVOFF015_EL2", 0xe6cf, R::AMEVCNTVOFF015_EL2),
    ("AMEVCNTVOFF10_EL2", 0xe6d0, R::AMEVCNTVOFF10_EL2),
    ("AMEVCNTVOFF11_EL2", 0xe6d1, R::AMEVCNTVOFF11_EL2),
    ("AMEVCNTVOFF12_EL2", 0xe6d2, R::AMEVCNTVOFF12_EL2),
    ("AMEVCNTVOFF13_EL2", 0xe6d3, R::AMEVCNTVOFF13_EL2),
    ("AMEVCNTVOFF14_EL2", 0xe6d4, R::AMEVCNTVOFF14_EL2),
    ("AMEVCNTVOFF15_EL2", 0xe6d5, R::AMEVCNTVOFF15_EL2),
    ("AMEVCNTVOFF16_EL2", 0xe6d6, R::AMEVCNTVOFF16_EL2),
    ("AMEVCNTVOFF17_EL2", 0xe6d7, R::AMEVCNTVOFF17_EL2),
    ("AMEVCNTVOFF18_EL2", 0xe6d8, R::AMEVCNTVOFF18_EL2),
    ("AMEVCNTVOFF19_EL2", 0xe6d9, R::AMEVCNTVOFF19_EL2),
    ("AMEVCNTVOFF110_EL2", 0xe6da, R::AMEVCNTVOFF110_EL2),
    ("AMEVCNTVOFF111_EL2", 0xe6db, R::AMEVCNTVOFF111_EL2),
    ("AMEVCNTVOFF112_EL2", 0xe6dc, R::AMEVCNTVOFF112_EL2),
    ("AMEVCNTVOFF113_EL2", 0xe6dd, R::AMEVCNTVOFF113_EL2),
    ("AMEVCNTVOFF114_EL2", 0xe6de, R::AMEVCNTVOFF114_EL2),
    ("AMEVCNTVOFF115_EL2", 0xe6df, R::AMEVCNTVOFF115_EL2),
    ("CNTVOFF_EL2", 0xe703, R::CNTVOFF_EL2),
    ("CNTPOFF_EL2", 0xe706, R::CNTPOFF_EL2),
    ("CNTHCTL_EL2", 0xe708, R::CNTHCTL_EL2),
    ("CNTHP_TVAL_EL2", 0xe710, R::CNTHP_TVAL_EL2),
    ("CNTHP_CTL_EL2", 0xe711, R::CNTHP_CTL_EL2),
    ("CNTHP_CVAL_EL2", 0xe712, R::CNTHP_CVAL_EL2),
    ("CNTHV_TVAL_EL2", 0xe718, R::CNTHV_TVAL_EL2),
    ("CNTHV_CTL_EL2", 0xe719, R::CNTHV_CTL_EL2),
    ("CNTHV_CVAL_EL2", 0xe71a, R::CNTHV_CVAL_EL2),
    ("CNTHVS_TVAL_EL2", 0xe720, R::CNTHVS_TVAL_EL2),
    ("CNTHVS_CTL_EL2", 0xe721, R::CNTHVS_CTL_EL2),
    ("CNTHVS_CVAL_EL2", 0xe722, R::CNTHVS_CVAL_EL2),
    ("CNTHPS_TVAL_EL2", 0xe728, R::CNTHPS_TVAL_EL2),
    ("CNTHPS_CTL_EL2", 0xe729, R::CNTHPS_CTL_EL2),
    ("CNTHPS_CVAL_EL2", 0xe72a, R::CNTHPS_CVAL_EL2),
    ("SCTLR_EL3", 0xf080, R::SCTLR_EL3),
    ("ACTLR_EL3", 0xf081, R::ACTLR_EL3),
    ("SCR_EL3", 0xf088, R::SCR_EL3),
    ("SDER32_EL3", 0xf089, R::SDER32_EL3),
    ("CPTR_EL3", 0xf08a, R::CPTR_EL3),
    ("ZCR_EL3", 0xf090, R::ZCR_EL3),
    ("SMCR_EL3", 0xf096, R::SMCR_EL3),
    ("MDCR_EL3", 0xf099, R::MDCR_EL3),
    ("TTBR0_EL3", 0xf100, R::TTBR0_EL3),
    ("TCR_EL3", 0xf102, R::TCR_EL3),
    ("GPTBR_EL3", 0xf10c, R::GPTBR_EL3),
    ("GPCCR_EL3", 0xf10e, R::GPCCR_EL3),
    ("SPSR_EL3", 0xf200, R::SPSR_EL3),
    ("ELR_EL3", 0xf201, R::ELR_EL3),
    ("SP_EL2", 0xf208, R::SP_EL2),
    ("AFSR0_EL3", 0xf288, R::AFSR0_EL3),
    ("AFSR1_EL3", 0xf289, R::AFSR1_EL3),
    ("ESR_EL3", 0xf290, R::ESR_EL3),
    ("TFSR_EL3", 0xf2b0, R::TFSR_EL3),
    ("FAR_EL3", 0xf300, R::FAR_EL3),
    ("MFAR_EL3", 0xf305, R::MFAR_EL3),
    ("MAIR_EL3", 0xf510, R::MAIR_EL3),
    ("AMAIR_EL3", 0xf518, R::AMAIR_EL3),
    ("MPAM3_EL3", 0xf528, R::MPAM3_EL3),
    ("VBAR_EL3", 0xf600, R::VBAR_EL3),
    ("RVBAR_EL3", 0xf601, R::RVBAR_EL3),
    ("RMR_EL3", 0xf602, R::RMR_EL3),
    ("ICC_CTLR_EL3", 0xf664, R::ICC_CTLR_EL3),
    ("ICC_SRE_EL3", 0xf665, R::ICC_SRE_EL3),
    ("ICC_IGRPEN1_EL3", 0xf667, R::ICC_IGRPEN1_EL3),
    ("TPIDR_EL3", 0xf682, R::TPIDR_EL3),
    ("SCXTNUM_EL3", 0xf687, R::SCXTNUM_EL3),
    ("CNTPS_TVAL_EL1", 0xff10, R::CNTPS_TVAL_EL1),
    ("CNTPS_CTL_EL1", 0xff11, R::CNTPS_CTL_EL1),
    ("CNTPS_CVAL_EL1", 0xff12, R::CNTPS_CVAL_EL1),
];
