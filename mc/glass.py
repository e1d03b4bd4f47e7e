"""Published dispersion of the glasses of /repo: index at the d line, Abbe number, and dispersion formula as coefficients
(from the makers' data sheets; written here as data, evaluated independently of /repo)."""
from math import sqrt, isfinite

F_LINE, D_LINE, C_LINE = 0.4861327, 0.5875618, 0.6562725


def sellmeier(*terms):
    def n(x):
        return sqrt(1 + sum(b*x*x/(x*x - c) for b, c in terms))
    return n


def schott(a0, a1, *rest):
    def n(x):
        return sqrt(a0 + a1*x*x + sum(a/x**(2*i + 2) for i, a in enumerate(rest)))
    return n


# N-SF6 and N-SF6HT are the same melt, the second with a higher transmission
GLASS = {
    "N_BK7": (1.51680, 64.17, sellmeier((1.03961212, 0.00600069867), (0.231792344, 0.0200179144), (1.01046945, 103.560653))),
    "N_SF2": (1.64769, 33.82, sellmeier((1.47343127, 0.0109019098), (0.163681849, 0.0585683687), (1.36920899, 127.404933))),
    "N_SF8": (1.68894, 31.31, sellmeier((1.55075812, 0.0114338344), (0.209816918, 0.0582725652), (1.46205491, 133.24165))),
    "SF2": (1.64769, 33.85, sellmeier((1.40301821, 0.0105795466), (0.231767504, 0.0493226978), (0.939056586, 112.405955))),
    "SF5": (1.67270, 32.21, sellmeier((1.46141885, 0.0111826126), (0.247713019, 0.0508594669), (0.949995832, 112.041888))),
    "N_SF5": (1.67271, 32.25, sellmeier((1.52481889, 0.011254756), (0.187085527, 0.0588995392), (1.42729015, 129.141675))),
    "N_SF6": (1.80518, 25.36, sellmeier((1.77931763, 0.0133714182), (0.338149866, 0.0617533621), (2.08734474, 174.01759))),
    "N_SF6HT": (1.80518, 25.36, sellmeier((1.77931763, 0.0133714182), (0.338149866, 0.0617533621), (2.08734474, 174.01759))),
    "N_SF10": (1.72828, 28.53, sellmeier((1.62153902, 0.0122241457), (0.256287842, 0.0595736775), (1.64447552, 147.468793))),
    "N_SF11": (1.78472, 25.68, sellmeier((1.73759695, 0.013188707), (0.313747346, 0.0623068142), (1.89878101, 155.23629))),
    "N_SF57": (1.84666, 23.78, sellmeier((1.87543831, 0.0141749518), (0.37375749, 0.0640509927), (2.30001797, 177.389795))),
    "N_BAF10": (1.67003, 47.11, sellmeier((1.5851495, 0.00926681282), (0.143559385, 0.0424489805), (1.08521269, 105.613573))),
    "E_BAF11": (1.66672, 48.32, schott(2.71954649, -0.0100472501, 0.0200301385, 0.000465868302, -7.51633336e-06, 1.77544989e-06)),
    "N_BAK1": (1.57250, 57.55, sellmeier((1.12365662, 0.00644742752), (0.309276848, 0.0222284402), (0.881511957, 107.297751))),
    "N_BAK4": (1.56883, 55.98, sellmeier((1.28834642, 0.00779980626), (0.132817724, 0.0315631177), (0.945395373, 105.965875))),
    "FK51A": (1.48656, 84.47, sellmeier((0.971247817, 0.00472301995), (0.216901417, 0.0153575612), (0.904651666, 168.68133))),
    "LAFN7": (1.74950, 34.95, sellmeier((1.66842615, 0.0103159999), (0.298512803, 0.0469216348), (1.0774376, 82.5078509))),
    "N_LASF9": (1.85025, 32.17, sellmeier((2.00029547, 0.0121426017), (0.298926886, 0.0538736236), (1.80691843, 156.530829))),
    "N_LAK22": (1.65113, 55.89, sellmeier((1.14229781, 0.00585778594), (0.535138441, 0.0198546147), (1.04088385, 100.834017))),
    "N_SSK5": (1.65844, 50.88, sellmeier((1.59222659, 0.00920284626), (0.103520774, 0.0423530072), (1.05174016, 106.927374))),
    "E_FD10": (1.72825, 28.32, schott(2.881518, -0.013228312, 0.03145559, 0.0026851666, -0.00022577544, 2.4693268e-05)),
    "FusedSilica": (1.45846, 67.82, sellmeier((0.6961663, 0.0684043**2), (0.4079426, 0.1162414**2), (0.8974794, 9.896161**2))),
    "N_SK16": (1.62041, 60.32, sellmeier((1.34317774, 0.00704687339), (0.241144399, 0.0229005), (0.994317969, 92.7508526))),
    "N_LAK10": (1.72003, 50.62, sellmeier((1.72878017, 0.00886014635), (0.169257825, 0.0363416509), (1.19386956, 82.9009069))),
    "S_BAH11": (1.66672, 48.32, sellmeier((1.5713886, 0.00910807936), (0.147869313, 0.0402401684), (1.28092846, 130.399367))),
    "S_TIH6": (1.80518, 25.42, sellmeier((1.77227611, 0.0131182633), (0.34569125, 0.0614479619), (2.40788501, 200.753254))),
    "N_SK2": (1.60738, 56.65, sellmeier((1.28189012, 0.0072719164), (0.257738258, 0.0242823527), (0.96818604, 110.377773))),
    "S_PHM52": (1.61800, 63.33, sellmeier((1.0996655, 0.0132718559), (0.478125422, -0.000601649685), (1.13214074, 130.595472))),
    "S_NPH2": (1.92286, 18.90, sellmeier((2.0386951, 0.0170796224), (0.437269641, 0.0749254813), (2.96711461, 174.155354))),
    "N_PK52A": (1.49700, 81.61, sellmeier((1.029607, 0.00516800155), (0.1880506, 0.0166658798), (0.736488165, 138.964129))),
    "H_LAF3B": (1.74400, 44.90, sellmeier((1.66486969, 0.00895646712), (0.30162248, 0.0350299695), (1.1973888, 123.334438))),
    "H_ZF52GT": (1.84666, 23.78, sellmeier((0.409982615, 0.0621421199), (2.37517176, 185.055134), (1.83913582, 0.0136093459))),
    "H_ZF13": (1.78472, 25.72, sellmeier((1.73521591, 0.0131087904), (0.316277446, 0.0621421663), (2.16384634, 178.845558))),
    "H_ZK50": (1.60738, 56.65, sellmeier((0.434311306, -0.00192252587), (1.10560033, 0.0147271072), (0.988776159, 110.41165))),
    "H_F4": (1.62005, 36.35, sellmeier((0.131898794, 0.05793195), (1.42441827, 0.0106270032), (1.21746316, 117.376535))),
}
GLASS["Air"] = (1.0, None, lambda x: 1.0)


def index(name, wavelength):
    return GLASS[name][2](wavelength)
