"use strict"
exports.useLocale = () => ({ t: p => 'T:' + p })
