"""Capsule angles (degrees) of the Eigenmike arrays: polar angle from +z, azimuth from +x."""

EIGENMIKE_EM32 = (
    [
        69, 90, 111, 90, 32, 55, 90, 125, 148, 125, 90, 55, 21, 58, 121, 159, 69, 90, 111, 90, 32, 55, 90, 125, 148, 125, 90,
        55, 21, 58, 122, 159
    ],
    [
        0, 32, 0, 328, 0, 45, 69, 45, 0, 315, 291, 315, 91, 90, 90, 89, 180, 212, 180, 148, 180, 225, 249, 225, 180, 135, 111,
        135, 269, 270, 270, 271
    ],
)
EIGENMIKE_EM64 = (
    [
        16.7656, 21.9677, 42.3941, 13.2817, 22.6728, 52.6925, 37.806, 43.3944, 43.9386, 70.3132, 33.2231, 60.0257, 56.4763,
        67.4936, 93.2735, 48.423, 78.0793, 62.0685, 38.7171, 63.8004, 70.1946, 96.246, 81.0992, 106.094, 67.7533, 91.7061,
        39.9985, 68.7726, 60.8869, 82.2833, 63.0247, 89.794, 137.5166, 139.7604, 135.2133, 160.3628, 162.577, 142.0685,
        161.1987, 162.577, 115.536, 86.2594, 116.0164, 95.3313, 90.0637, 111.4549, 85.8671, 130.8398, 102.5775, 142.6375,
        117.032, 117.5631, 115.8884, 89.69, 118.4478, 93.9338, 106.3875, 81.0511, 135.9764, 142.6771, 120.6556, 133.8834,
        116.3591, 107.464
    ],
    [
        197.4561, 115.734, 81.911, 313.3592, 43.1785, 46.7324, 335.9958, 14.5398, 204.4547, 206.542, 247.3219, 233.817,
        264.5437, 99.6669, 104.6842, 120.9227, 126.513, 148.2368, 162.6381, 178.5498, 21.2715, 25.7834, 47.8607, 55.9075,
        71.4285, 78.4921, 293.221, 290.5683, 318.1354, 334.0042, 352.0227, 0, 174.0335, 212.7205, 251.9179, 150.6471, 240.8266,
        293.0625, 331.0098, 60.8266, 226.9135, 233.9255, 193.6382, 209.6696, 183.169, 163.7105, 156.9524, 139.4318, 135.9729,
        102.3273, 112.5511, 83.1464, 307.7078, 309.1392, 278.2519, 282.9735, 253.147, 260.0688, 59.7394, 14.2241, 32.4901,
        334.0753, 2.0842, 335.0677
    ],
)
