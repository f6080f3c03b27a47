"""Input generators for the falsifiers (independent of the grammars)."""

HANZI = "一二三四五六七八九十百千万亿零两点年月日号时分秒元块斤米度的是在我你他好吧啊呃儿女乾後裡分之负正减加乘除等于第到至半刻早上下午"
KANA = "あいうえおかきくけこさしすせそのはひふへほをんアイウエオーゼロ円時分秒年月日第番"
WIDE = "０１２３４５６７８９ＡＢＣａｂｃ：／－．，！？％＄（）　"
LATIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
PUNCT = "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"
CJKP = "，。！？、；：“”‘’（）《》【】…—·～￥"
ODD = "\t\n\r\x0b\x0c\u00a0\u2002\u3000\u200b\ufeffé€£ßñ漢字한글😀𠮷\u0301\x01\x7f"
DIGITS = "0123456789"

EN_WORDS = ("one two three four five six seven eight nine ten eleven twelve thirteen twenty thirty forty fifty hundred "
            "thousand million billion point minus negative dollar dollars cents percent january may first second third "
            "twentieth a.m. p.m. o'clock half past to quarter at dot com www the cat sat on mat mr dr st and oh zero "
            "double triple kg km per hour feet degrees celsius").split()
EN_FORMS = ("1 12 2:30 10:05pm 3/4 1/2 $5 $1.50 $1.0 billion 20% 5kg 10km/h 1st 22nd 2020-01-02 Jan 3, 2021 555-123-4567 "
            "a@b.com www.x.org 192.168.0.1 1990s 5-6 -3 +7 IV 12.5 1,000 $.5 № & @ # 1990 5€ é# 1 APR").split(" ")
ZH_FORMS = ("2.5平方 100 2020年1月2日 2020/01/02 12:30 8:05:06 1/3 50% ￥13.5 $13.5 25kg 38°C 10km/h 12306 13912345678 1:0 3-5 "
            "-2 ±2 8月16号 1980年代 第3 100万 1.5亿 2～3 CEO O2O 一百二 十二点半 百分之五 三分之一 负二 二零二二年 五点零二分 "
            "三十五分三十六秒 十三点五元 一千米 一万两千 幺二三零六 京A12345").split(" ")
JA_FORMS = ("2.5 100 2020年1月2日 12:30 1/3 50% 1,000円 $13.5 25kg 3〜5 第3 100万 1.5億 百二十三 一万二千 三分の一 十二時半 "
            "午後三時 二〇二〇年 千円 マイナス二 五点三").split(" ")


def texts(rng, name, count):
    """Mixed texts: every single odd character, forms, and random mixtures."""
    lang = name[:2]
    forms = {"en": EN_FORMS + EN_WORDS, "zh": ZH_FORMS, "ja": JA_FORMS}[lang]
    base = {"en": LATIN + PUNCT + DIGITS + "    ", "zh": HANZI + DIGITS + CJKP + PUNCT, "ja": KANA + HANZI + DIGITS + CJKP}[lang]
    out = [c for c in PUNCT] + [c for c in ODD] + ["  ", " a ", "\\\"", "<\">", "a\\", "\"\"", "x  y", " 1", "1 "]
    out += forms
    sep = " " if lang == "en" else ""
    while len(out) < count + 90:
        k = rng.random()
        if k < 0.35:
            out.append("".join(rng.choice(base) for _ in range(rng.randint(1, 14))))
        elif k < 0.55:
            out.append("".join(rng.choice(base + ODD + PUNCT + WIDE) for _ in range(rng.randint(1, 10))))
        elif k < 0.85:
            out.append(sep.join(rng.choice(forms) for _ in range(rng.randint(1, 4))))
        else:
            out.append((rng.choice(forms) + rng.choice(base + ODD) + rng.choice(forms)))
    seen = set()
    return [x for x in out[:count + 90] if not (x in seen or seen.add(x))]
