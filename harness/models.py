"""The finite models TLC explores exhaustively: which ones a check runs, and their configurations."""
import vt, sessions
TOY = open(vt.SPEC + "/toy.inc").read()
def toy(scenario, depth, keys="MKeys", seeds="MSeeds", passes="MPass", salts="MSalts"):
    return "MCToy", TOY + """ Keys <- %s
 Seeds <- %s
 PassIds <- %s
 Salts <- %s
 Scenario <- %s
 MaxLen = %d
SPECIFICATION Spec
INVARIANT Holds
CHECK_DEADLOCK FALSE
""" % (keys, seeds, passes, salts, scenario, depth)
QUICK = {
    "plain": toy("ScPlain", 2), "ec": toy("ScEC", 3, seeds="MSeeds"), "both": toy("ScBoth", 2), "nets": toy("ScNets", 2), "typos": toy("ScTypos", 2), "forged": toy("ScForged", 2), "all": toy("ScAll", 2),
    "plain+": toy("ScPlain", 3, keys="MAllKeys", passes="MAllPass"), "ec+": toy("ScEC", 3, seeds="MAllSeeds", salts="MAllSalts"), "all+": toy("ScAll", 3),
}
def ideal(depth, focus="MFocuses"): return "MCIdeal", sessions.SMALL % ("MCoins", focus, depth, "")
QUICK.update({"ideal": ideal(2, "MFocuses1"), "ideal+": ideal(2), "ideal++": ideal(3, "MFocuses1")})
TEXT = open(vt.SPEC + "/text.inc").read(); LAWS = "SPECIFICATION Spec\nINVARIANT Holds\nCHECK_DEADLOCK FALSE\n"
def text(octets, chars): return "MCText", TEXT + " MaxOctets = %d MaxText = %d\n" % (octets, chars) + LAWS
def conv(octets, message): return "MCConv", "CONSTANTS MaxOctets = %d MaxMessage = %d\n" % (octets, message) + LAWS
def curve(p, n, x, y, thirds): return "MCCurve", "CONSTANTS Prime = %d Order = %d Gx = %d Gy = %d Thirds = %d\n" % (p, n, x, y, thirds) + LAWS
QUICK.update({"text": text(5, 6), "text+": text(8, 9), "conv": conv(4, 300), "conv+": conv(6, 2500), "curve": curve(43, 31, 2, 12, 31), "curve+": curve(211, 199, 3, 33, 3)})
# property: (quick models, thorough models); "agree" plays behaviours of Ideal to Protocol
USES = {"C01": ("plain agree", "plain+ agree"), "C02": ("plain", "plain+"), "C03": ("ec agree", "ec+ agree"), "C04": ("ec", "ec+"), "C05": ("ec ideal", "ec+ ideal+"), "C06": ("ec", "ec+"), "C07": ("both ideal", "ec+ ideal+"), "C08": ("typos", "all+"),
        "C09": ("forged", "all+"), "C10": ("both ideal", "plain+ ideal+"), "C11": ("nets ideal", "all+ ideal+"), "C12": ("nets", "all+"), "C13": ("text", "text+"), "C14": ("text", "text+"), "C15": ("text", "text+"), "C16": ("curve", "curve curve+"), "C17": ("conv", "conv+"), "C22": ("conv", "conv+"), "C18": ("ec ideal", "ec+ ideal+"), "C19": ("nets", "all+"), "C20": ("both agree", "all+ agree ideal+"), "C21": ("both ideal", "ec+ ideal++"), "C23": ("both", "all+"), "C24": ("both", "all+")}
def run(prop, tier, seed):
    """[(name, ok, generated, distinct, output)] of the models of a property."""
    out = []
    for name in USES.get(prop, ("", ""))[tier == "thorough"].split():
        w = vt.Work("mc")
        try:
            if name == "agree": out.append(sessions.agree(w, seed, 40 if tier == "quick" else 1500)); continue
            mod, cfg = QUICK[name]
            lines, ok, gen, full = vt.tlc(w, mod, cfg, timeout=700 if tier == "quick" else 6000, workers=4 if tier == "quick" else 8)
            out.append((name, ok, gen[0], gen[1], full))
        finally: w.close()
    return out
