ACT(01,1)
ACT(03,3)
ACT(04,4)
ACT(05,5)
ACT(06,6)
ACT(07,7)
ACT(10,10)
ACT(11,11)
ACT(19,19)
ACT(02,2)
ACT(08,8)
ACT(09,9)
ACT(12,12)
ACT(13,13)
ACT(18,18)
ACT(14,14)
ACT(15,15)
ACT(16,16)
ACT(17,17)
ACT(20,20)
ACT(21,21)
