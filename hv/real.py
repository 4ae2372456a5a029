"""Descriptors of common devices, hex."""
REAL = {
    "mouse": "05010902a1010901a1000509190129031500250195037501810295017505810305010930093109381581257f750895038106c0c0",
    "keyboard": "05010906a101050719e029e71500250175019508810295017508810195057501050819012905910295017503910195067508"
                "150025650507190029658100c0",
    "gamepad": "05010905a101a10005091901291015002501951075018102050109300931093209331581257f750895048102c0c0",
    "joystick_push": "05010904a101a415002501a405091901290875019508810205010939150025073500463b01661400750495018142"
                     "b4b4c0",
    "consumer": "050c0901a101850115002501750195010ae20009e909ea950381020a21020a2302950281029503810105c0c0",
    "digitizer": "050d0904a10185010922a102094209320951150025017501950181029506810305010930150026ff7f3500460009"
                 "55fe6513751095018102093146dc058102c0c0",
    "vendor": "0600ff0901a1011500 26ff00750895400902810209039102954009 04b10 2c0".replace(" ", ""),
    "ups": "05840904a101852009 1ea102850109 6d7508950115 0025647508b1a2c0c0".replace(" ", ""),
    "led": "05080 94ba1019501750115002501094b91029507 9103c0".replace(" ", ""),
}

