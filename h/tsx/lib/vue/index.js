exports.defineComponent = o => o
