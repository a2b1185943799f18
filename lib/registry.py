PROPS = {
    "C01": {"domains": ["bitfield"]},
    "C02": {"domains": ["bitfield"]},
    "C03": {"domains": ["bitfield"]},
    "C04": {"domains": ["words"]},
    "C05": {"domains": ["words"]},
    "C06": {"domains": ["encoding"]},
    "C07": {"domains": ["encoding"]},
    "C08": {"domains": ["encoding"]},
    "C09": {"domains": ["memory"]},
    "C10": {"domains": ["memory"]},
    "C11": {"domains": ["registers"]},
    "C12": {"domains": ["registers"]},
    "C13": {"domains": ["registers"]},
    "C14": {"domains": ["deck"]},
    "C15": {"domains": ["deck"]},
    "C16": {"domains": ["deck"]},
    "C17": {"domains": ["deck"]},
    "C18": {"domains": ["symbols"]},
    "C19": {"domains": ["symbols"]},
    "C20": {"domains": ["symbols"]},
    "C21": {"domains": ["symbols"]},
    "C22": {"domains": ["tools"]},
    "C23": {"domains": ["tools"]},
    "C24": {"domains": ["tools"]},
    "C25": {"domains": ["context"]},
    "C26": {"domains": ["context"]},
}
