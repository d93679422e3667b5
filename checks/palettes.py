"""The documented colour palettes: name -> 16 colours, default foreground, default background."""
PALETTES = {
    'legacy': '000000 cd0000 00cd00 cdcd00 0000ee cd00cd 00cdcd e5e5e5 7f7f7f '
        'ff0000 00ff00 ffff00 5c5cff ff00ff 00ffff ffffff e5e5e5 000000',
    'vga': '000000 aa0000 00aa00 aa5500 0000aa aa00aa 00aaaa aaaaaa 555555 '
        'ff5555 55ff55 ffff55 5555ff ff55ff 55ffff ffffff aaaaaa 000000',
    'solarized': '073642 dc322f 859900 b58900 268bd2 d33682 2aa198 eee8d5 002b36 '
        'cb4b16 586e75 657b83 839496 6c71c4 93a1a1 fdf6e3 eee8d5 073642',
    'solarized-black': '000000 dc322f 859900 b58900 268bd2 d33682 2aa198 eee8d5 002b36 '
        'cb4b16 586e75 657b83 839496 6c71c4 93a1a1 fdf6e3 eee8d5 000000',
    'solarized-white': '073642 dc322f 859900 b58900 268bd2 d33682 2aa198 eee8d5 002b36 '
        'cb4b16 586e75 657b83 839496 6c71c4 93a1a1 fdf6e3 073642 eee8d5',
    'soft-black': '3f3f3f 705050 60b48a dfaf8f 9ab8d7 dc8cc3 8cd0d3 ffffff 709080 '
        'dca3a3 72d5a3 f0dfaf 94bff3 ec93d3 93e0e3 dcdccc dcdccc 2c2c2c',
    'base16-dark': '000000 ab4642 a1b56c f7ca88 7cafc2 ba8baf 86c1b9 aaaaaa 555555 '
        'ab4642 a1b56c f7ca88 7cafc2 ba8baf 86c1b9 ffffff d8d8d8 181818',
    'base16-light': '000000 ab4642 a1b56c f7ca88 7cafc2 ba8baf 86c1b9 aaaaaa 555555 '
        'ab4642 a1b56c f7ca88 7cafc2 ba8baf 86c1b9 ffffff 181818 d8d8d8',
}
