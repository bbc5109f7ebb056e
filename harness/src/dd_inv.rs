/// 1/n in double-double
const INV: [Dd; 32] = [
    ZERO,
    Dd { hi: 1.0, lo: 0.0 },
    Dd { hi: 0.5, lo: 0.0 },
    Dd { hi: 0.3333333333333333, lo: 1.850371707708594e-17 },
    Dd { hi: 0.25, lo: 0.0 },
    Dd { hi: 0.2, lo: -1.1102230246251566e-17 },
    Dd { hi: 0.16666666666666666, lo: 9.25185853854297e-18 },
    Dd { hi: 0.14285714285714285, lo: 7.93016446160826e-18 },
    Dd { hi: 0.125, lo: 0.0 },
    Dd { hi: 0.1111111111111111, lo: 6.1679056923619804e-18 },
    Dd { hi: 0.1, lo: -5.551115123125783e-18 },
    Dd { hi: 0.09090909090909091, lo: -2.523234146875356e-18 },
    Dd { hi: 0.08333333333333333, lo: 4.625929269271485e-18 },
    Dd { hi: 0.07692307692307693, lo: -4.270088556250602e-18 },
    Dd { hi: 0.07142857142857142, lo: 3.96508223080413e-18 },
    Dd { hi: 0.06666666666666667, lo: 9.251858538542971e-19 },
    Dd { hi: 0.0625, lo: 0.0 },
    Dd { hi: 0.058823529411764705, lo: 8.163404592832033e-19 },
    Dd { hi: 0.05555555555555555, lo: 3.0839528461809902e-18 },
    Dd { hi: 0.05263157894736842, lo: 2.921639538487254e-18 },
    Dd { hi: 0.05, lo: -2.7755575615628915e-18 },
    Dd { hi: 0.047619047619047616, lo: 2.64338815386942e-18 },
    Dd { hi: 0.045454545454545456, lo: -1.261617073437678e-18 },
    Dd { hi: 0.043478260869565216, lo: 1.206764157201257e-18 },
    Dd { hi: 0.041666666666666664, lo: 2.3129646346357427e-18 },
    Dd { hi: 0.04, lo: -8.326672684688674e-19 },
    Dd { hi: 0.038461538461538464, lo: -2.135044278125301e-18 },
    Dd { hi: 0.037037037037037035, lo: 2.05596856412066e-18 },
    Dd { hi: 0.03571428571428571, lo: 1.982541115402065e-18 },
    Dd { hi: 0.034482758620689655, lo: 4.785444071660157e-19 },
    Dd { hi: 0.03333333333333333, lo: 4.625929269271486e-19 },
    Dd { hi: 0.03225806451612903, lo: 8.953411488912552e-19 },
];
